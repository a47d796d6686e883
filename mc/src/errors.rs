//! C27: what an error for lack of data says about the structure. Every decoder that reports the
//! structure's name and size is run on every length and content; the size it asks for has to be
//! the size that is enough.

use crate::chains::digit;
use crate::*;
use pcics::capabilities as c;
use pcics::extended_capabilities as x;

type Decode = fn(&[u8]) -> Result<(), String>;
/// Whether both are decoded, to the same value
type Same = fn(&[u8], &[u8]) -> bool;
struct Kind {
    name: &'static str,
    /// A length beyond which nothing changes
    len: usize,
    decode: Decode,
    same: Same,
    /// What it calls itself
    called: String,
}

macro_rules! kinds {
    ($($name:literal, $len:literal, $ty:ty;)*) => {
        vec![$(Kind {
            name: $name,
            len: $len,
            decode: |d: &[u8]| <$ty>::try_from(d).map(|v| sink(&v)).map_err(|e| e.to_string()),
            same: |a: &[u8], b: &[u8]| matches!((<$ty>::try_from(a), <$ty>::try_from(b)), (Ok(x), Ok(y)) if x == y),
            called: <$ty>::try_from(&[][..]).err().map(|e| e.to_string()).as_deref().and_then(parse).map(|p| p.0.to_string()).unwrap_or_default(),
        }),*]
    };
}
fn kinds() -> Vec<Kind> {
    kinds! {
        "advanced_features", 8, c::AdvancedFeatures;
        "slot_identification", 4, c::SlotIdentification;
        "vpd", 8, c::VitalProductData;
        "bridge_subsystem", 8, c::BridgeSubsystemVendorId;
        "power_management", 8, c::PowerManagementInterface;
        "sata", 8, c::Sata;
        "debug_port", 4, c::DebugPort;
        "flattening_portal_bridge", 36, c::FlatteningPortalBridge;
        "msi_x", 12, c::MsiX;
        "agp", 34, c::AcceleratedGraphicsPort;
        "l1_pm_substates", 16, x::L1PmSubstates;
        "frs_queuing", 20, x::FrsQueuing;
        "m_phy", 36, x::PciExpressOverMphy;
        "ats", 8, x::AddressTranslationServices;
        "configuration_access_correlation", 12, x::ConfigurationAccessCorrelation;
        "page_request", 16, x::PageRequestInterface;
        "ptm", 12, x::PrecisionTimeMeasurement;
        "vendor_specific", 16, x::VendorSpecificExtendedCapability;
        "ltr", 12, x::LatencyToleranceReporting;
        "access_control_services", 16, x::AccessControlServices;
        "tph_requester", 16, x::TphRequester;
        "multicast", 52, x::Multicast;
        "device_serial_number", 12, x::DeviceSerialNumber;
        "power_budgeting", 16, x::PowerBudgeting;
        "ln_requester", 12, x::LnRequester;
        "virtual_channel", 36, x::VirtualChannel;
        "sr_iov", 64, x::SingleRootIoVirtualization;
        "secondary_pci_express", 16, x::SecondaryPciExpress;
        "ari", 8, x::AlternativeRoutingIdInterpretation;
        "rc_internal_link_control", 12, x::RootComplexInternalLinkControl;
        "pasid", 8, x::ProcessAddressSpaceId;
        "readiness_time_reporting", 16, x::ReadinessTimeReporting;
        "rcrb_header", 24, x::RootComplexRegisterBlockHeader;
        "rc_event_collector", 12, x::RootComplexEventCollectorEndpointAssociation;
    }
}

/// `NAME (N bytes)`
fn parse(text: &str) -> Option<(&str, usize)> {
    let (name, rest) = text.rsplit_once(" (")?;
    Some((name, rest.strip_suffix(" bytes)")?.parse().ok()?))
}

/// Image: kind, data
fn check(kinds: &[Kind], img: &[u8]) -> Verdict {
    let (kind, data) = (img[0] as usize, &img[1..]);
    let Kind { decode, same, .. } = &kinds[kind];
    let Err(text) = decode(data) else { return Ok("decoded") };
    let Some((name, need)) = parse(&text) else { return Err(format!("error {text:?} names no size")) };
    if data.len() >= need {
        return Err(format!("asks for {need} bytes but does not take {}", data.len()));
    }
    // whatever the missing bytes are
    let mut less = false;
    for more in patterns(need) {
        let mut full = data.to_vec();
        full.extend_from_slice(&more[data.len()..]);
        steps(1);
        if let Err(e) = decode(&full) {
            return Err(format!("asks for {need} bytes and does not take them: {e}"));
        }
        less |= !same(&full, &full[..need - 1]);
    }
    if !less {
        return Err(format!("asks for {need} bytes but {} give the same", need - 1));
    }
    if let Some(o) = kinds.iter().enumerate().find(|(o, k)| *o != kind && k.called == name) {
        return Err(format!("is called {name:?}, as is {}", o.1.name));
    }
    Ok("error")
}

pub fn run(ctx: &Ctx) {
    let kinds: &'static [Kind] = kinds().leak();
    for (k, &Kind { name, len, .. }) in kinds.iter().enumerate() {
        // any three bits with all values, at every length
        let array = crate::covering::Array::new(len, 3);
        ctx.sweep(name, "bits together, cut", array.rows * len as u64, &|i, b| {
            b.clear();
            b.push(k as u8);
            b.extend((0..i as usize % len).map(|p| array.byte(i / len as u64, p)));
            true
        }, &move |img: &[u8]| check(kinds, img));
        let small: Vec<u8> = if ctx.thorough() || len <= 16 { (0..=255).collect() } else { MENU.to_vec() };
        let nv = small.len() as u64;
        for base in patterns(len) {
            let (n, l) = (len as u64, len as u64 + 1);
            ctx.sweep(name, "lengths x 1byte", l * n * nv, &|i, b| {
                let mut i = i;
                let (v, at, cut) = (digit(&mut i, nv), digit(&mut i, n) as usize, digit(&mut i, l) as usize);
                if at >= cut && (at > 0 || v > 0) {
                    return false;
                }
                b.clear();
                b.push(k as u8);
                b.extend_from_slice(&base);
                if at < cut {
                    b[1 + at] = small[v as usize];
                }
                b.truncate(1 + cut);
                true
            }, &move |img: &[u8]| check(kinds, img));
        }
    }
}
