//! The two linked lists of configuration space: reference walkers and their state spaces.

use crate::registry::*;
use crate::*;
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::Header;
use std::fmt::Debug;

type CapItem<'a> = Result<Capability<'a>, CapabilityError>;
type ExtItem<'a> = Result<ExtendedCapability<'a>, ExtendedCapabilityError>;

/// What a capability with this id and these bytes after its header is, wherever it lies
pub fn direct_cap<'a>(id: u8, data: &'a [u8], header: &'a Header, bridge: bool, ptr: u8) -> Result<CapabilityKind<'a>, CapabilityError> {
    use CapabilityError as E;
    use CapabilityKind as K;
    macro_rules! plain {
        ($v:ident) => {
            match <$v>::try_from(data) {
                Ok(x) => Ok(K::$v(x)),
                Err(source) => Err(E::Data { ptr, source }),
            }
        };
    }
    macro_rules! own {
        ($v:ident, $r:expr) => {
            match $r {
                Ok(x) => Ok(K::$v(x)),
                Err(source) => Err(E::$v { ptr, source }),
            }
        };
    }
    match id {
        0x00 => Ok(K::NullCapability),
        0x01 => plain!(PowerManagementInterface),
        0x02 => plain!(AcceleratedGraphicsPort),
        0x03 => plain!(VitalProductData),
        0x04 => plain!(SlotIdentification),
        0x05 => own!(MessageSignaledInterrups, MessageSignaledInterrups::try_from(data)),
        0x06 => Ok(K::CompactPciHotSwap(CompactPciHotSwap)),
        0x07 if bridge => own!(PciXBridge, PciXBridge::try_from(data)),
        0x07 => own!(PciX, PciX::try_from(data)),
        0x08 => own!(Hypertransport, Hypertransport::try_from(data)),
        0x09 => own!(VendorSpecific, VendorSpecific::try_new(data, header)),
        0x0a => plain!(DebugPort),
        0x0b => Ok(K::CompactPciResourceControl(CompactPciResourceControl)),
        0x0c => Ok(K::PciHotPlug(PciHotPlug)),
        0x0d => plain!(BridgeSubsystemVendorId),
        0x0e => Ok(K::Agp8x(Agp8x)),
        0x0f => Ok(K::SecureDevice(SecureDevice)),
        0x10 => own!(PciExpress, PciExpress::try_from(data)),
        0x11 => plain!(MsiX),
        0x12 => plain!(Sata),
        0x13 => plain!(AdvancedFeatures),
        0x14 => own!(EnhancedAllocation, EnhancedAllocation::try_new(data, header)),
        0x15 => plain!(FlatteningPortalBridge),
        v => Ok(K::Reserved(v)),
    }
}

/// The same for extended capabilities; `at` is everything from the header dword on
pub fn direct_ext(id: u16, at: &[u8], offset: u16) -> Result<ExtendedCapabilityKind<'_>, ExtendedCapabilityError> {
    use ExtendedCapabilityError as E;
    use ExtendedCapabilityKind as K;
    let data = &at[4..];
    macro_rules! plain {
        ($v:ident, $d:expr) => { plain!($v, $v, $d) };
        ($v:ident, $t:ty, $d:expr) => {
            match <$t>::try_from($d) {
                Ok(x) => Ok(K::$v(x)),
                Err(source) => Err(E::Data { offset, source }),
            }
        };
    }
    macro_rules! own {
        ($v:ident, $d:expr) => {
            match <$v>::try_from($d) {
                Ok(x) => Ok(K::$v(x)),
                Err(source) => Err(E::$v { offset, source }),
            }
        };
    }
    macro_rules! unit {
        ($v:ident) => { Ok(K::$v($v)) };
    }
    use pcics::extended_capabilities::{
        data_link_feature::DataLinkFeature, physical_layer_16_gtps::PhysicalLayer16GTps,
    };
    match id {
        0x00 => Ok(K::Null),
        0x01 => own!(AdvancedErrorReporting, data),
        0x02 => plain!(VirtualChannel, data),
        0x03 => plain!(DeviceSerialNumber, data),
        0x04 => plain!(PowerBudgeting, data),
        0x05 => own!(RootComplexLinkDeclaration, data),
        0x06 => plain!(RootComplexInternalLinkControl, data),
        0x07 => plain!(RootComplexEventCollectorEndpointAssociation, data),
        0x08 => own!(MultifunctionVirtualChannel, at),
        0x09 => plain!(VirtualChannelMfvcPresent, VirtualChannel, data),
        0x0a => plain!(RootComplexRegisterBlockHeader, at),
        0x0b => plain!(VendorSpecificExtendedCapability, data),
        0x0c => plain!(ConfigurationAccessCorrelation, at),
        0x0d => plain!(AccessControlServices, data),
        0x0e => plain!(AlternativeRoutingIdInterpretation, data),
        0x0f => plain!(AddressTranslationServices, data),
        0x10 => plain!(SingleRootIoVirtualization, data),
        0x11 => unit!(MultiRootIoVirtualization),
        0x12 => plain!(Multicast, at),
        0x13 => plain!(PageRequestInterface, data),
        0x14 => unit!(ReservedForAmd),
        0x15 => own!(ResizableBar, at),
        0x16 => own!(DynamicPowerAllocation, at),
        0x17 => plain!(TphRequester, data),
        0x18 => plain!(LatencyToleranceReporting, data),
        0x19 => plain!(SecondaryPciExpress, data),
        0x1a => own!(ProtocolMultiplexing, at),
        0x1b => plain!(ProcessAddressSpaceId, data),
        0x1c => plain!(LnRequester, at),
        0x1d => own!(DownstreamPortContainment, data),
        0x1e => plain!(L1PmSubstates, data),
        0x1f => plain!(PrecisionTimeMeasurement, data),
        0x20 => plain!(PciExpressOverMphy, at),
        0x21 => plain!(FrsQueuing, at),
        0x22 => plain!(ReadinessTimeReporting, at),
        0x23 => own!(DesignatedVendorSpecificExtendedCapability, at),
        0x24 => own!(VfResizableBar, at),
        0x25 => unit!(DataLinkFeature),
        0x26 => unit!(PhysicalLayer16GTps),
        0x27 => unit!(LaneMarginingAtTheReceiver),
        0x28 => unit!(HierarchyId),
        0x29 => unit!(NativePcieEnclosureManagement),
        0x2a => unit!(PhysicalLayer32GTps),
        0x2b => unit!(AlternateProtocol),
        0x2c => unit!(SystemFirmwareIntermediary),
        0x2d => unit!(ShadowFunctions),
        0x2e => unit!(DataObjectExchange),
        0x2f => unit!(Device3),
        0x30 => unit!(IntegrityAndDataEncryption),
        0x31 => unit!(PhysicalLayer64GTps),
        0x32 => unit!(FlitLogging),
        0x33 => unit!(FlitPerformanceMeasurement),
        0x34 => unit!(FlitErrorInjection),
        v => Ok(K::Reserved(v)),
    }
}

/// Position of the first capability, by the header layout in the image
pub fn first_pointer(img: &[u8]) -> u8 {
    match img[0x0e] & 0x7f {
        0 | 1 => img[0x34] & 0xfc,
        2 => img[0x14] & 0xfc,
        _ => 0,
    }
}

/// Reference walker. `img` is configuration space from byte 0.
pub fn model_caps<'a>(img: &'a [u8], header: &'a Header, mut visit: impl FnMut(CapItem<'a>) -> Result<(), String>) -> Result<(), String> {
    let bridge = img[0x0e] & 0x7f == 1;
    let mut seen = [false; 64];
    let mut ptr = first_pointer(img);
    while ptr != 0 && !seen[ptr as usize / 4] {
        seen[ptr as usize / 4] = true;
        let p = ptr as usize;
        if p < 0x40 {
            return visit(Err(CapabilityError::Pointer));
        }
        if p + 2 > img.len() {
            return visit(Err(CapabilityError::Header { ptr }));
        }
        visit(direct_cap(img[p], &img[p + 2..], header, bridge, ptr).map(|kind| Capability { pointer: ptr, kind }))?;
        ptr = img[p + 1] & 0xfc;
    }
    Ok(())
}
/// Reference walker. `ecs` is configuration space from byte 100h.
pub fn model_ext<'a>(ecs: &'a [u8], mut visit: impl FnMut(ExtItem<'a>, u16) -> Result<(), String>) -> Result<(), String> {
    let mut seen = [false; 1024];
    let mut offset = 0x100u16;
    while offset != 0 && !seen[offset as usize / 4] {
        seen[offset as usize / 4] = true;
        if offset < 0x100 {
            return visit(Err(ExtendedCapabilityError::Offset), 0);
        }
        let o = offset as usize - 0x100;
        if o + 4 > ecs.len() {
            return visit(Err(ExtendedCapabilityError::Header { offset }), 0);
        }
        let dword = u32at(ecs, o);
        if dword == 0 {
            break;
        }
        let id = f16(dword, 0, 15);
        let version = f8(dword, 16, 19);
        let h = ExtendedCapabilityHeader::from(dword);
        if (h.extended_capability_id, h.capability_version, h.next_capability_offset & 0xffc) != (id, version, f16(dword, 20, 31) & 0xffc) {
            return Err(format!("header {dword:#010x} decoded as {h:?}"));
        }
        visit(direct_ext(id, &ecs[o..], offset).map(|kind| ExtendedCapability { kind, version, offset }), id)?;
        offset = f16(dword, 20, 31) & 0xffc;
    }
    Ok(())
}

fn differs(n: usize, model: &dyn Debug, real: &dyn Debug) -> String {
    format!("item {n}: model {model:?} real {real:?}")
}

/// The error names the place: `[pointer]` in front
fn located(text: String, place: String) -> Result<(), String> {
    if text.starts_with(&place) { Ok(()) } else { Err(format!("error {text:?} does not name its place {place}")) }
}

/// Item by item, then that the list has ended and stays ended
pub fn check_caps(img: &[u8]) -> Verdict {
    if img.len() < 0x40 {
        return Ok("no header");
    }
    let header = Header::try_from(img).map_err(|e| format!("header: {e:?}"))?;
    let mut real = Capabilities::new(&img[0x40..], &header);
    let mut n = 0;
    let mut class = "empty list";
    model_caps(img, &header, |want| {
        let got = real.next();
        if got.as_ref() != Some(&want) {
            return Err(differs(n, &want, &got));
        }
        n += 1;
        class = match &want {
            Ok(_) if class == "with errors" => class,
            Ok(_) => "list",
            Err(CapabilityError::Pointer) => "bad pointer",
            Err(CapabilityError::Header { .. }) => "header beyond the data",
            Err(_) => "with errors",
        };
        Ok(())
    })?;
    steps(n as u64);
    for _ in 0..3 {
        if let Some(x) = real.next() {
            return Err(format!("goes on after {n} items: {x:?}"));
        }
    }
    Ok(class)
}
pub fn check_ext(ecs: &[u8]) -> Verdict {
    let mut real = ExtendedCapabilities::new(ecs);
    let mut n = 0;
    let mut class = "empty list";
    model_ext(ecs, |want, id| {
        let got = real.next();
        if got.as_ref() != Some(&want) {
            return Err(differs(n, &want, &got));
        }
        n += 1;
        class = match &want {
            Ok(c) => {
                if c.id() != id {
                    return Err(format!("item {n}: id {:#x}, should be {id:#x}", c.id()));
                }
                if class == "with errors" { class } else { "list" }
            }
            Err(ExtendedCapabilityError::Offset) => "bad offset",
            Err(ExtendedCapabilityError::Header { .. }) => "header beyond the data",
            Err(_) => "with errors",
        };
        Ok(())
    })?;
    steps(n as u64);
    for _ in 0..3 {
        if let Some(x) = real.next() {
            return Err(format!("goes on after {n} items: {x:?}"));
        }
    }
    Ok(class)
}

/// C02 alone: the walk ends, within one step per dword, visits no place twice, and stays ended
pub fn check_ends_caps(img: &[u8]) -> Verdict {
    if img.len() < 0x40 {
        return Ok("no header");
    }
    let header = Header::try_from(img).map_err(|e| format!("header: {e:?}"))?;
    let mut real = Capabilities::new(&img[0x40..], &header);
    let mut seen = [false; 256];
    let mut n = 0u64;
    while let Some(x) = real.next() {
        n += 1;
        if n > 49 {
            return Err("more items than there are places".into());
        }
        if let Ok(c) = x {
            if std::mem::replace(&mut seen[c.pointer as usize], true) {
                return Err(format!("capability at {:#x} visited twice", c.pointer));
            }
        }
    }
    steps(n);
    stays_ended(real, n)
}
pub fn check_ends_ext(ecs: &[u8]) -> Verdict {
    let mut real = ExtendedCapabilities::new(ecs);
    let mut seen = [false; 4096];
    let mut n = 0u64;
    while let Some(x) = real.next() {
        n += 1;
        if n > 961 {
            return Err("more items than there are places".into());
        }
        if let Ok(c) = x {
            if std::mem::replace(&mut seen[c.offset as usize & 0xfff], true) {
                return Err(format!("capability at {:#x} visited twice", c.offset));
            }
        }
    }
    steps(n);
    stays_ended(real, n)
}
fn stays_ended<T: Debug>(mut it: impl Iterator<Item = T>, n: u64) -> Verdict {
    for _ in 0..4 {
        if let Some(x) = it.next() {
            return Err(format!("goes on after {n} items: {x:?}"));
        }
    }
    Ok(match n {
        0 => "empty",
        1 => "one item",
        2..=8 => "several items",
        9..=47 => "many items",
        _ => "long",
    })
}

/// 256 bytes of configuration space
pub fn space(l: Layout, first: u8, background: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; 0x40];
    v[0x0e] = match l {
        Layout::Bridge => 1,
        Layout::Cardbus => 2,
        _ => 0,
    };
    if l == Layout::Virtio {
        v[..4].copy_from_slice(&[0xf4, 0x1a, 0x41, 0x10]);
    }
    v[if l == Layout::Cardbus { 0x14 } else { 0x34 }] = first;
    v.extend_from_slice(background);
    v
}
pub const LAYOUTS: [Layout; 3] = [Layout::Normal, Layout::Bridge, Layout::Cardbus];

/// Digits of a mixed radix number, least significant first
pub fn digit(i: &mut u64, base: u64) -> u64 {
    let d = *i % base;
    *i /= base;
    d
}

pub fn ext_header(b: &mut [u8], o: usize, id: u16, version: u8, next: u16) {
    let dword = id as u32 | (version as u32) << 16 | (next as u32) << 20;
    b[o..o + 4].copy_from_slice(&dword.to_le_bytes());
}

/// All lists over few places: every first pointer and every next pointer of every place
pub fn cap_graphs(ctx: &Ctx, check: &CheckFn) {
    let n = if ctx.thorough() { 7 } else { 6 };
    let places: Vec<u8> = [0x40u8, 0x48, 0xfc, 0x44, 0x80, 0xf0, 0xc4][..n].to_vec();
    let ids: [u8; 7] = [0x01, 0x09, 0x05, 0x0a, 0x06, 0x00, 0xee];
    let mut menu = places.clone();
    // end, below the region (aligned or not), reserved low bits set, no capability written there
    menu.extend([0x00, 0x3c, 0x4b, 0x02, 0x60]);
    let m = menu.len() as u64;
    let background: Vec<u8> = (0..192).map(|i| if i % 4 == 1 { 0 } else { 3 }).collect();
    for l in LAYOUTS {
        let base = space(l, 0, &background);
        let at = if l == Layout::Cardbus { 0x14 } else { 0x34 };
        let total = m.pow(n as u32 + 1);
        let total = if l == Layout::Normal { total } else { total / m / m };
        ctx.sweep("capability-graphs", "graphs", total, &|i, b| {
            let mut i = i;
            b.clear();
            b.extend_from_slice(&base);
            b[at] = menu[digit(&mut i, m) as usize];
            for (k, &p) in places.iter().enumerate() {
                b[p as usize] = ids[k];
                b[p as usize + 1] = menu[digit(&mut i, m) as usize];
            }
            true
        }, check);
    }
}
/// One capability: every place, every id, every next pointer, over backgrounds that continue the list
pub fn cap_single(ctx: &Ctx, check: &CheckFn) {
    let mut backgrounds: Vec<Vec<u8>> = vec![vec![0; 192], (0..192).map(|i| (i as u8).wrapping_mul(29) ^ 0x50).collect()];
    if ctx.thorough() {
        backgrounds.extend(patterns(192));
    }
    for l in LAYOUTS {
        for bg in &backgrounds {
            let base = space(l, 0, bg);
            let at = if l == Layout::Cardbus { 0x14 } else { 0x34 };
            let ids: Vec<u8> = if ctx.thorough() { (0..=255).collect() } else { (0..=0x17).chain([0x7f, 0x80, 0xff]).collect() };
            let ni = ids.len() as u64;
            ctx.sweep("capability-single", "single", 256 * 256 * ni, &|i, b| {
                let mut i = i;
                let (p, next, id) = (digit(&mut i, 256) as usize, digit(&mut i, 256) as u8, ids[digit(&mut i, ni) as usize]);
                b.clear();
                b.extend_from_slice(&base);
                b[at] = p as u8;
                let p = p & 0xfc;
                if p >= 0x40 {
                    b[p] = id;
                    b[p + 1] = next;
                }
                true
            }, check);
            // every id
            ctx.sweep("capability-single", "ids", 256 * 64, &|i, b| {
                let p = (i / 256) as usize * 4;
                if p < 0x40 {
                    return false;
                }
                b.clear();
                b.extend_from_slice(&base);
                b[at] = p as u8;
                b[p] = i as u8;
                b[p + 1] = 0;
                true
            }, check);
        }
    }
}
/// Every available length of the region, every place of the capability before or at its end
pub fn cap_truncated(ctx: &Ctx, check: &CheckFn) {
    let bgs = patterns(192);
    for l in LAYOUTS {
        let bases: Vec<Vec<u8>> = bgs.iter().map(|b| space(l, 0, b)).collect();
        let at = if l == Layout::Cardbus { 0x14 } else { 0x34 };
        let nb = bases.len() as u64;
        ctx.sweep("capability-truncated", "lengths", nb * 24 * 64 * 193, &|i, b| {
            let mut i = i;
            let base = &bases[digit(&mut i, nb) as usize];
            let (id, p, len) = (digit(&mut i, 24) as u8, digit(&mut i, 64) as usize * 4, digit(&mut i, 193) as usize);
            if p < 0x40 && id != 0 {
                return false;
            }
            b.clear();
            b.extend_from_slice(base);
            b[at] = p as u8;
            if p >= 0x40 {
                b[p] = id;
                // on to a place that is always there unless the region is empty
                b[p + 1] = if p == 0x40 { 0x44 } else { 0x40 };
                if p != 0x40 {
                    b[0x40] = 0;
                    b[0x41] = 0;
                }
            }
            b.truncate(0x40 + len);
            true
        }, check);
    }
}
/// Long lists: from every start with every stride through all 48 places
pub fn cap_strides(ctx: &Ctx, check: &CheckFn) {
    for (id, l) in [(0x06u8, Layout::Normal), (0x0e, Layout::Bridge), (0x00, Layout::Cardbus), (0x42, Layout::Normal), (0x04, Layout::Normal)] {
        ctx.sweep("capability-strides", "strides", 48 * 48 * 49, &|i, b| {
            let mut i = i;
            let (start, stride, stop) = (digit(&mut i, 48), digit(&mut i, 48), digit(&mut i, 49));
            b.clear();
            b.extend_from_slice(&space(l, (0x40 + 4 * start) as u8, &[0u8; 192]));
            for s in 0..48u64 {
                let p = 0x40 + 4 * s as usize;
                b[p] = id;
                let to = (s + stride) % 48;
                b[p + 1] = if s == stop { 0 } else { 0x40 + 4 * to as u8 };
            }
            true
        }, check);
    }
}

pub const ECS: usize = 4096 - 256;

/// All extended lists over few places
pub fn ext_graphs(ctx: &Ctx, check: &CheckFn) {
    let n = if ctx.thorough() { 7 } else { 6 };
    let places: Vec<u16> = [0x100u16, 0x104, 0xffc, 0x140, 0xfe0, 0x800, 0x200][..n].to_vec();
    let ids: [u16; 7] = [0x0003, 0x0018, 0x0025, 0x001b, 0x000e, 0x0000, 0x1234];
    let mut menu = places.clone();
    menu.extend([0x000, 0x0fc, 0x143, 0x001, 0x400]);
    let m = menu.len() as u64;
    // short region too: the last places fall off
    for len in [ECS, 0xfe0 - 0x100 + 4, 0x800 - 0x100 + 3] {
        let base = vec![0u8; len];
        let total = m.pow(n as u32);
        ctx.sweep("extended-graphs", "graphs", total, &|i, b| {
            let mut i = i;
            if b.len() == base.len() {
                // only the places differ between states of this sweep
                for &p in &places {
                    let o = p as usize - 0x100;
                    if o + 4 <= len { b[o..o + 4].fill(0); }
                }
            } else {
                b.clear();
                b.extend_from_slice(&base);
            }
            for (k, &p) in places.iter().enumerate() {
                let next = menu[digit(&mut i, m) as usize];
                let o = p as usize - 0x100;
                if o + 4 <= len {
                    // version 0 and id 0 with next 0: an empty header, which ends the list
                    ext_header(b, o, ids[k], k as u8 % 5, next);
                }
            }
            true
        }, check);
    }
}
/// One extended capability at 100h: header dword sweeps over backgrounds that continue the list
pub fn ext_single(ctx: &Ctx, check: &CheckFn) {
    let continued: Vec<u8> = {
        let mut v = vec![0u8; ECS];
        for o in (0..ECS).step_by(4) {
            // each place holds a capability; the list goes on a few times
            let next = (o as u16).wrapping_mul(7) & 0xfff;
            let next = if o % 32 == 28 { 0 } else { next };
            ext_header(&mut v, o, [0x25u16, 0x3, 0x1b, 0x99, 0x0][o / 4 % 5], (o / 4 % 16) as u8, next);
        }
        v
    };
    // every next offset x version x the known ids
    ctx.sweep("extended-single", "next", 4096 * 16 * 0x40, &|i, b| {
        let mut i = i;
        let (next, version, id) = (digit(&mut i, 4096) as u16, digit(&mut i, 16) as u8, digit(&mut i, 0x40) as u16);
        if b.len() != ECS {
            b.clear();
            b.extend_from_slice(&continued);
        }
        ext_header(b, 0, id, version, next);
        true
    }, check);
    // every id x version x offsets: single bits, runs, their complements, a few places
    let mut nexts: Vec<u16> = vec![0, 0x100, 0x104, 0x144, 0xffc, 0xff8, 0x555, 0xaaa];
    for k in 0..12 {
        nexts.extend([1u16 << k, (1 << k) - 1, 0xfff & !(1 << k), 0xfff & (0xfff << k)]);
    }
    nexts.sort();
    nexts.dedup();
    let nn = nexts.len() as u64;
    ctx.sweep("extended-single", "ids", 65536 * 16 * nn, &|i, b| {
        let mut i = i;
        if b.len() != ECS {
            b.clear();
            b.extend_from_slice(&continued);
        }
        let next = nexts[digit(&mut i, nn) as usize];
        ext_header(b, 0, i as u16, (i >> 16) as u8, next);
        true
    }, check);
    if ctx.thorough() {
        // the whole header dword, in a region that holds nothing else
        ctx.sweep("extended-single", "dword", 1 << 32, &|i, b| {
            b.resize(8, 0);
            b[..4].copy_from_slice(&(i as u32).to_le_bytes());
            true
        }, check);
    }
    // second capability at every offset, every id
    ctx.sweep("extended-second", "places", 1024 * 0x40 * 4, &|i, b| {
        let mut i = i;
        let (slot, id, low) = (digit(&mut i, 1024) as usize, digit(&mut i, 0x40) as u16, digit(&mut i, 4) as u16);
        b.clear();
        b.extend((0..ECS).map(|k| (k as u8).wrapping_mul(0x35)));
        ext_header(b, 0, 0x25, 1, (slot * 4) as u16 | low);
        if slot * 4 > 0x100 {
            ext_header(b, slot * 4 - 0x100, id, 3, 0);
        }
        true
    }, check);
}
pub fn ext_truncated(ctx: &Ctx, check: &CheckFn) {
    let bgs = patterns(ECS);
    let nb = bgs.len() as u64;
    // a capability of every kind close to the end of the region, the list then returns to another
    let span = 80usize;
    ctx.sweep("extended-truncated", "lengths", nb * 0x40 * (span as u64 + 1), &|i, b| {
        let mut i = i;
        let bg = &bgs[digit(&mut i, nb) as usize];
        let (id, len) = (digit(&mut i, 0x40) as u16, digit(&mut i, span as u64 + 1) as usize);
        b.clear();
        b.extend_from_slice(bg);
        ext_header(b, 0, 0x14, 1, 0x400);
        ext_header(b, 4, 0x11, 2, 0);
        ext_header(b, 0x300, id, 1, 0x104);
        b.truncate(0x300 + len);
        true
    }, check);
    // every length of the whole region
    for second in [0x104u16, 0x108, 0x1fc, 0x800, 0xff8, 0xffc] {
        ctx.sweep("extended-truncated", "all lengths", ECS as u64 + 1, &|i, b| {
            b.clear();
            b.extend_from_slice(&bgs[0]);
            ext_header(b, 0, 0x25, 1, second);
            ext_header(b, second as usize - 0x100, 0x26, 1, 0);
            b.truncate(i as usize);
            true
        }, check);
    }
}
/// Every sequence of four kinds (five in the thorough tier), up and down through the region
pub fn cap_sequences(ctx: &Ctx, check: &CheckFn) {
    let bgs = patterns(192);
    let n = if ctx.thorough() { 5usize } else { 4 };
    let ids: Vec<u8> = (0..=0x16).chain([0xff]).collect();
    let (ni, nb) = (ids.len() as u64, bgs.len() as u64);
    for l in LAYOUTS {
        let bases: Vec<Vec<u8>> = bgs.iter().map(|b| space(l, 0, b)).collect();
        let at = if l == Layout::Cardbus { 0x14 } else { 0x34 };
        ctx.sweep("capability-sequences", "kinds", ni.pow(n as u32) * nb * 2, &|i, b| {
            let mut i = i;
            let (base, down) = (&bases[digit(&mut i, nb) as usize], digit(&mut i, 2) == 1);
            b.clear();
            b.extend_from_slice(base);
            let step = 192 / n / 4 * 4;
            let place = |k: usize| 0x40 + step * if down { n - 1 - k } else { k };
            b[at] = place(0) as u8;
            for k in 0..n {
                b[place(k)] = ids[digit(&mut i, ni) as usize];
                b[place(k) + 1] = if k + 1 < n { place(k + 1) as u8 } else { 0 };
            }
            true
        }, check);
    }
}
/// Every sequence of three kinds (four in the thorough tier), up and down through the region
pub fn ext_sequences(ctx: &Ctx, check: &CheckFn) {
    let bgs = patterns(ECS);
    let n = if ctx.thorough() { 4usize } else { 3 };
    let ids: Vec<u16> = (0..=0x36).chain([0xffff]).collect();
    let (ni, nb) = (ids.len() as u64, if ctx.thorough() { 2 } else { bgs.len() as u64 });
    ctx.sweep("extended-sequences", "kinds", ni.pow(n as u32) * nb * 2, &|i, b| {
        let mut i = i;
        let (base, down) = (&bgs[digit(&mut i, nb) as usize], digit(&mut i, 2) == 1);
        b.clear();
        b.extend_from_slice(base);
        let step = (ECS - 4) / n / 4 * 4;
        // the first is always at the start of the region
        let place = |k: usize| if k == 0 { 0 } else { step * if down { n - k } else { k } };
        for k in 0..n {
            let next = if k + 1 < n { 0x100 + place(k + 1) as u16 } else { 0 };
            ext_header(b, place(k), ids[digit(&mut i, ni) as usize], 1 + k as u8, next);
        }
        true
    }, check);
}
pub fn ext_strides(ctx: &Ctx, check: &CheckFn) {
    let n = ECS as u64 / 4;
    for id in [0x25u16, 0x00] {
        ctx.sweep("extended-strides", "strides", n * 3, &|i, b| {
            let mut i = i;
            let (stride, stop) = (digit(&mut i, n), [n, n - 1, n / 2][digit(&mut i, 3) as usize]);
            b.resize(ECS, 0);
            for s in 0..n {
                let to = (s + stride) % n;
                let next = if s == stop { 0 } else { 0x100 + 4 * to as u16 };
                ext_header(b, 4 * s as usize, id, 1, next);
            }
            true
        }, check);
    }
}

/// Whole images as base, deviations in the pointers
pub fn dumps() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for f in ["device/8086_2030/config", "device/8086_9dc8/config"] {
        if let Ok(d) = std::fs::read(format!("/repo/tests/data/{f}")) {
            v.push(d);
        }
    }
    v
}

/// The list against the reference walker, and every error text against the place it is about
fn check_places_caps(img: &[u8]) -> Verdict {
    let header = Header::try_from(img).map_err(|e| format!("header: {e:?}"))?;
    let mut real = Capabilities::new(&img[0x40..], &header);
    let mut ptr = first_pointer(img);
    let (mut n, mut errors) = (0, 0);
    model_caps(img, &header, |want| {
        let got = real.next();
        if got.as_ref() != Some(&want) {
            return Err(differs(n, &want, &got));
        }
        n += 1;
        let next = img.get(ptr as usize + 1).map_or(0, |p| p & 0xfc);
        match got {
            Some(Err(CapabilityError::Pointer)) | Some(Ok(_)) | None => (),
            Some(Err(e)) => {
                errors += 1;
                located(e.to_string(), format!("[{ptr:02x}]"))?;
            }
        }
        ptr = next;
        Ok(())
    })?;
    steps(n as u64);
    if real.next().is_some() {
        return Err(format!("goes on after {n} items"));
    }
    Ok(match errors {
        0 => "decoded",
        1 => "error in between",
        _ => "several errors",
    })
}
fn check_places_ext(ecs: &[u8]) -> Verdict {
    let mut real = ExtendedCapabilities::new(ecs);
    let mut offset = 0x100usize;
    let (mut n, mut errors) = (0, 0);
    model_ext(ecs, |want, _| {
        let got = real.next();
        if got.as_ref() != Some(&want) {
            return Err(differs(n, &want, &got));
        }
        n += 1;
        let next = if offset >= 0x100 && offset - 0x100 + 4 <= ecs.len() { (u32at(ecs, offset - 0x100) >> 20) as usize & 0xffc } else { 0 };
        match got {
            Some(Err(ExtendedCapabilityError::Offset)) | Some(Ok(_)) | None => (),
            Some(Err(e)) => {
                errors += 1;
                located(e.to_string(), format!("[{offset:03x}]"))?;
            }
        }
        offset = next;
        Ok(())
    })?;
    steps(n as u64);
    if real.next().is_some() {
        return Err(format!("goes on after {n} items"));
    }
    Ok(match errors {
        0 => "decoded",
        1 => "error in between",
        _ => "several errors",
    })
}

/// Broken capabilities at every place, and several of them in one list
fn broken_places(ctx: &Ctx) {
    for c in registry() {
        let shapes: Vec<Vec<u8>> = c.target().bases.into_iter().step_by(if ctx.thorough() { 1 } else { 4 }).collect();
        let nb = shapes.len() as u64;
        match c.place {
            Place::Cap(id, l) => {
                let len = c.len as u64 + 1;
                ctx.sweep(c.name, "places", 44 * len * nb, &|i, b| {
                    let mut i = i;
                    let (ptr, keep, s) = (0x50 + 4 * digit(&mut i, 44) as usize, digit(&mut i, len) as usize, &shapes[digit(&mut i, nb) as usize]);
                    b.clear();
                    b.extend_from_slice(&space(l, 0x44, &[0u8; 192]));
                    b[0x44..0x48].copy_from_slice(&[0x04, ptr as u8, 0x5a, 0xa5]);
                    b[0x4c..0x50].copy_from_slice(&[0x0a, 0, 0x34, 0x12]);
                    b.truncate(ptr);
                    b.extend([id, 0x4c]);
                    b.extend_from_slice(&s[..keep]);
                    b.truncate(256);
                    true
                }, &check_places_caps);
            }
            Place::Ext(id) | Place::ExtAtHeader(id) => {
                let skip = if matches!(c.place, Place::ExtAtHeader(_)) { 4 } else { 0 };
                // some lengths, all places
                let keeps: Vec<usize> = (skip..=c.len).step_by(if ctx.thorough() || c.len <= 16 { 1 } else { c.len.div_ceil(16) | 1 }).collect();
                let (np, nk) = (1012u64, keeps.len() as u64);
                ctx.sweep(c.name, "places", np * nk * nb.min(3), &|i, b| {
                    let mut i = i;
                    let (o, keep, s) = (0x30 + 4 * digit(&mut i, np) as usize, keeps[digit(&mut i, nk) as usize], &shapes[digit(&mut i, nb.min(3)) as usize]);
                    if o + 4 > ECS {
                        return false;
                    }
                    b.clear();
                    b.resize(o + 4, 0);
                    ext_header(b, 0, 0x0003, 1, 0x100 + o as u16);
                    b[4..12].copy_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
                    ext_header(b, 0x10, 0x001b, 2, 0);
                    b[0x14..0x18].copy_from_slice(&[6, 0x14, 7, 0]);
                    ext_header(b, o, id, 1, 0x110);
                    b.extend_from_slice(&s[skip..keep.max(skip)]);
                    b.truncate(ECS);
                    true
                }, &check_places_ext);
            }
        }
    }
    // several in one list: every sequence of intact ones and ones broken in different ways
    let n = if ctx.thorough() { 7usize } else { 6 };
    ctx.sweep("capabilities-broken", "sequences", 8u64.pow(n as u32) * 3, &|i, b| {
        let mut i = i;
        let l = LAYOUTS[digit(&mut i, 3) as usize];
        let kinds: Vec<usize> = (0..n).map(|_| digit(&mut i, 8) as usize).collect();
        // place and id of each: whole ones low, ones that run out of data at the end of the region
        let at = |k: usize| match kinds[k] {
            0..=2 => 0x40 + 8 * k,
            _ => 0xfc - 4 * k,
        };
        b.clear();
        b.extend_from_slice(&space(l, at(0) as u8, &[0u8; 192]));
        for k in 0..n {
            let id = [0x0a, 0x09, 0x04, 0x10, 0x11, 0x08, 0x05, 0x07][kinds[k]];
            let o = at(k);
            b[o] = id;
            b[o + 1] = if k + 1 < n { at(k + 1) as u8 } else { 0 };
            if kinds[k] != 1 {
                b[o + 2..o + 4].copy_from_slice(&[0x80 + k as u8, 0x12]);
            }
        }
        true
    }, &check_places_caps);
    ctx.sweep("extended-broken", "sequences", 8u64.pow(n as u32), &|i, b| {
        let mut i = i;
        let kinds: Vec<usize> = (0..n).map(|_| digit(&mut i, 8) as usize).collect();
        let at = |k: usize| match (k, kinds[k]) {
            (0, _) => 0,
            (_, 0..=3) => 0x40 * k,
            _ => ECS - 4 - 4 * k,
        };
        b.clear();
        b.resize(ECS, 0);
        for k in 0..n {
            let id = [0x0003, 0x0015, 0x0023, 0x001b, 0x0001, 0x000d, 0x0010, 0x0016][kinds[k]];
            ext_header(b, at(k), id, k as u8, if k + 1 < n { 0x100 + at(k + 1) as u16 } else { 0 });
        }
        true
    }, &check_places_ext);
    // nothing but broken ones, all over the region, in every regular order
    ctx.sweep("capabilities-broken", "strides", 48 * 3, &|i, b| {
        let mut i = i;
        let (stride, l) = (digit(&mut i, 48) as usize, LAYOUTS[digit(&mut i, 3) as usize]);
        b.clear();
        b.extend_from_slice(&space(l, 0x40, &[0u8; 192]));
        for s in 0..48 {
            b[0x40 + 4 * s..0x44 + 4 * s].copy_from_slice(&[0x09, 0x40 + 4 * ((s + stride) % 48) as u8, 0, 0]);
        }
        true
    }, &check_places_caps);
    ctx.sweep("extended-broken", "strides", 240 * 2, &|i, b| {
        let mut i = i;
        let (stride, id) = (digit(&mut i, 240) as usize, [0x0015u16, 0x0023][digit(&mut i, 2) as usize]);
        b.clear();
        b.resize(ECS, 0);
        for s in 0..240 {
            ext_header(b, 16 * s, id, 1, 0x100 + 16 * ((s + stride) % 240) as u16);
        }
        true
    }, &check_places_ext);
}

/// A capability of every kind, complete or cut short or with one byte changed, between two others:
/// its neighbours are reported as if it were not there, and its failure names its place
pub fn faulty_neighbours(ctx: &Ctx) {
    broken_places(ctx);
    for c in registry() {
        let shapes = c.target().bases;
        let nb = shapes.len() as u64;
        let len = c.len as u64;
        match c.place {
            Place::Cap(id, l) => {
                let ptr = 0xb0usize;
                let make = |img: &[u8], keep: usize, b: &mut Vec<u8>| {
                    b.clear();
                    b.extend_from_slice(&space(l, 0x44, &[0u8; 192]));
                    b[0x44] = 0x04;
                    b[0x45] = ptr as u8;
                    b[0x46] = 0x5a;
                    b[0x47] = 0xa5;
                    b[0x4c] = 0x0a;
                    b[0x4e] = 0x34;
                    b[0x4f] = 0x12;
                    b.truncate(ptr);
                    b.push(id);
                    b.push(0x4c);
                    b.extend_from_slice(&img[..keep]);
                };
                ctx.sweep(c.name, "cut short", nb * (len + 1), &|i, b| {
                    make(&shapes[(i % nb) as usize], (i / nb) as usize, b);
                    true
                }, &check_middle_cap);
                ctx.sweep(c.name, "one byte", nb * len * 256, &|i, b| {
                    let s = &shapes[(i % nb) as usize];
                    let (p, v) = ((i / nb / 256) as usize, (i / nb) as u8);
                    make(s, s.len(), b);
                    b[ptr + 2 + p] = v;
                    v != s[p]
                }, &check_middle_cap);
                // on to every pointer
                let mut filled = space(l, ptr as u8, &[0u8; 192]);
                for p in (0x40..0x100).step_by(4) {
                    filled[p] = [0x06, 0x0b, 0x04, 0x0c][p / 4 % 4];
                    filled[p + 1] = if p % 16 == 12 { 0 } else { p as u8 + 4 };
                }
                ctx.sweep(c.name, "cut short, any next", nb * (len + 1) * 256, &|i, b| {
                    let mut i = i;
                    let (next, shape, keep) = (digit(&mut i, 256) as u8, digit(&mut i, nb) as usize, digit(&mut i, len + 1) as usize);
                    b.clear();
                    b.extend_from_slice(&filled[..ptr]);
                    b.push(id);
                    b.push(next);
                    b.extend_from_slice(&shapes[shape][..keep]);
                    true
                }, &check_caps);
            }
            Place::Ext(id) | Place::ExtAtHeader(id) => {
                let at_header = matches!(c.place, Place::ExtAtHeader(_));
                let skip = if at_header { 4 } else { 0 };
                let off = 0x300usize;
                let make = |img: &[u8], keep: usize, b: &mut Vec<u8>| {
                    b.clear();
                    b.resize(off, 0);
                    ext_header(b, 0, 0x0003, 1, 0x400);
                    b[4..12].copy_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
                    ext_header(b, 0x40, 0x001b, 2, 0);
                    b[0x44..0x48].copy_from_slice(&[6, 0x14, 7, 0]);
                    b.extend_from_slice(&[0; 4]);
                    ext_header(b, off, id, 1, 0x140);
                    b.extend_from_slice(&img[skip.min(keep)..keep]);
                };
                ctx.sweep(c.name, "cut short", nb * (len + 1 - skip as u64), &|i, b| {
                    make(&shapes[(i % nb) as usize], skip + (i / nb) as usize, b);
                    true
                }, &check_middle_ext);
                ctx.sweep(c.name, "one byte", nb * (len - skip as u64) * 256, &|i, b| {
                    let s = &shapes[(i % nb) as usize];
                    let (p, v) = (skip + (i / nb / 256) as usize, (i / nb) as u8);
                    make(s, s.len(), b);
                    b[off + 4 + p - skip] = v;
                    v != s[p]
                }, &check_middle_ext);
                // on to every dword of the space, present or not
                let mut filled = vec![0u8; off + 4];
                for o in (0..off).step_by(4) {
                    let next = if o % 16 == 12 { 0 } else { o as u16 + 0x104 };
                    ext_header(&mut filled, o, [0x25, 0x26, 0x2a, 0x99][o / 4 % 4], 1, next);
                }
                ext_header(&mut filled, 0, 0x25, 1, 0x400);
                ctx.sweep(c.name, "cut short, any next", nb * (len + 1 - skip as u64) * 1024, &|i, b| {
                    let mut i = i;
                    let (next, shape, keep) = (digit(&mut i, 1024) as u16 * 4, digit(&mut i, nb) as usize, i as usize + skip);
                    b.clear();
                    b.extend_from_slice(&filled);
                    ext_header(b, off, id, 1, next);
                    b.extend_from_slice(&shapes[shape][skip.min(keep)..keep]);
                    true
                }, &check_ext);
            }
        }
    }
}
fn check_middle_cap(img: &[u8]) -> Verdict {
    let header = Header::try_from(img).map_err(|e| format!("header: {e:?}"))?;
    let items: Vec<CapItem> = Capabilities::new(&img[0x40..], &header).take(50).collect();
    if items.len() != 3 {
        return Err(format!("{} items instead of 3: {items:?}", items.len()));
    }
    steps(3);
    let first = direct_cap(0x04, &img[0x46..], &header, false, 0x44).map(|kind| Capability { pointer: 0x44, kind });
    let last = direct_cap(0x0a, &img[0x4e..], &header, false, 0x4c).map(|kind| Capability { pointer: 0x4c, kind });
    if items[0] != first || items[2] != last || !matches!((&items[0], &items[2]), (Ok(_), Ok(_))) {
        return Err(format!("neighbours changed: {:?} {:?}", items[0], items[2]));
    }
    let id = img[0xb0];
    let bridge = img[0x0e] & 0x7f == 1;
    let want = direct_cap(id, &img[0xb2..], &header, bridge, 0xb0).map(|kind| Capability { pointer: 0xb0, kind });
    if items[1] != want {
        return Err(differs(1, &want, &items[1]));
    }
    match &items[1] {
        Ok(_) => Ok("decoded"),
        Err(e) => {
            located(e.to_string(), "[b0]".into())?;
            Ok("error in between")
        }
    }
}
fn check_middle_ext(ecs: &[u8]) -> Verdict {
    let items: Vec<ExtItem> = ExtendedCapabilities::new(ecs).take(50).collect();
    if items.len() != 3 {
        return Err(format!("{} items instead of 3: {items:?}", items.len()));
    }
    steps(3);
    let first = direct_ext(0x03, &ecs[..], 0x100).map(|kind| ExtendedCapability { version: 1, offset: 0x100, kind });
    let last = direct_ext(0x1b, &ecs[0x40..], 0x140).map(|kind| ExtendedCapability { version: 2, offset: 0x140, kind });
    if items[0] != first || items[2] != last || !matches!((&items[0], &items[2]), (Ok(_), Ok(_))) {
        return Err(format!("neighbours changed: {:?} {:?}", items[0], items[2]));
    }
    let want = direct_ext(u16at(ecs, 0x300), &ecs[0x300..], 0x400).map(|kind| ExtendedCapability { version: 1, offset: 0x400, kind });
    if items[1] != want {
        return Err(differs(1, &want, &items[1]));
    }
    match &items[1] {
        Ok(_) => Ok("decoded"),
        Err(e) => {
            located(e.to_string(), "[400]".into())?;
            Ok("error in between")
        }
    }
}

/// Images in which capabilities of every kind follow each other, for every layout
pub fn cap_zoo() -> Vec<Vec<u8>> {
    let mut out = vec![];
    for l in [Layout::Normal, Layout::Bridge, Layout::Cardbus, Layout::Virtio] {
        let mut b = space(l, 0x40, &[0u8; 192]);
        let mut at = 0x40usize;
        let mut last: Option<usize> = None;
        for c in registry() {
            let Place::Cap(id, need) = c.place else { continue };
            if need != l && l != Layout::Cardbus { continue }
            let bases = c.target().bases;
            // ramp background, first shape
            let img = &bases[bases.len() / 5 * 2];
            let size = (c.len + 2 + 3) / 4 * 4;
            if at + size > 256 {
                out.push(std::mem::replace(&mut b, space(l, 0x40, &[0u8; 192])));
                at = 0x40;
                last = None;
            }
            if let Some(p) = last { b[p + 1] = at as u8; }
            b[at] = id;
            b[at + 1] = 0;
            b[at + 2..at + 2 + c.len].copy_from_slice(img);
            last = Some(at);
            at += size;
        }
        out.push(b);
    }
    out
}
/// The same for the extended list; one image per background
pub fn ext_zoo() -> Vec<Vec<u8>> {
    let mut out = vec![];
    for k in 0..5 {
        let mut b = vec![0u8; ECS];
        let mut at = 0usize;
        let mut last: Option<usize> = None;
        for c in registry() {
            let (id, skip) = match c.place {
                Place::Ext(id) => (id, 0),
                Place::ExtAtHeader(id) => (id, 4),
                _ => continue,
            };
            let bases = c.target().bases;
            let img = &bases[bases.len() / 5 * k];
            let size = (4 + c.len - skip + 3) / 4 * 4;
            if at + size > ECS { break }
            if let Some(p) = last {
                b[p + 2] = b[p + 2] & 0x0f | ((0x100 + at) << 4) as u8;
                b[p + 3] = ((0x100 + at) >> 4) as u8;
            }
            b[at..at + 4].copy_from_slice(&[id as u8, (id >> 8) as u8, 1, 0]);
            b[at + 4..at + 4 + c.len - skip].copy_from_slice(&img[skip..]);
            last = Some(at);
            at += size;
        }
        out.push(b);
    }
    out
}
/// One byte of such an image changed, or the image cut short
fn neighbourhood(ctx: &Ctx, name: &str, zoo: &[Vec<u8>], values: &[u8], cut: usize, check: &CheckFn) {
    let nv = values.len() as u64;
    for img in zoo {
        let n = img.len() as u64;
        ctx.sweep(name, "1byte", n * nv, &|i, b| {
            let (p, v) = ((i / nv) as usize, values[(i % nv) as usize]);
            b.clear();
            b.extend_from_slice(img);
            b[p] = v;
            v != img[p]
        }, check);
        ctx.sweep(name, "cut", n + 1 - cut as u64, &|i, b| {
            b.clear();
            b.extend_from_slice(&img[..cut + i as usize]);
            true
        }, check);
    }
}
/// Images of all kinds of which everything but the list itself takes on all values of any three bits
pub fn cap_cover(ctx: &Ctx, check: &CheckFn) {
    let array = crate::covering::Array::new(192, if ctx.thorough() { 5 } else { 3 });
    for img in cap_zoo() {
        // ids and pointers stay
        let mut keep = vec![];
        let mut p = first_pointer(&img) as usize;
        while p != 0 {
            keep.extend([p, p + 1]);
            p = img[p + 1] as usize;
        }
        ctx.sweep("capability-zoo", "bits together", array.rows, &|r, b| {
            b.clear();
            b.extend_from_slice(&img);
            for i in 0..192 {
                b[0x40 + i] = array.byte(r, i);
            }
            for &p in &keep {
                b[p] = img[p];
            }
            true
        }, check);
    }
}
pub fn ext_cover(ctx: &Ctx, check: &CheckFn) {
    let array = crate::covering::Array::new(ECS, 3);
    let img = &ext_zoo()[2];
    let mut keep = vec![];
    let mut o = 0x100usize;
    while o != 0 {
        keep.push(o - 0x100);
        o = (u32at(img, o - 0x100) >> 20) as usize & 0xffc;
    }
    ctx.sweep("extended-zoo", "bits together", array.rows, &|r, b| {
        array.row(r, b);
        for &p in &keep {
            b[p..p + 4].copy_from_slice(&img[p..p + 4]);
        }
        true
    }, check);
}
pub fn cap_neighbourhood(ctx: &Ctx, check: &CheckFn) {
    let all: Vec<u8> = (0..=255).collect();
    let mut zoo = cap_zoo();
    zoo.extend(dumps().into_iter().map(|d| d[..d.len().min(256)].to_vec()).filter(|d| d.len() == 256));
    neighbourhood(ctx, "capability-zoo", &zoo, &all, 0x40, check);
}
pub fn ext_neighbourhood(ctx: &Ctx, check: &CheckFn) {
    let all: Vec<u8> = (0..=255).collect();
    let mut zoo = ext_zoo();
    if !ctx.thorough() { zoo = zoo.split_off(2)[..1].to_vec(); }
    zoo.extend(dumps().into_iter().filter(|d| d.len() == 4096).map(|d| d[256..].to_vec()));
    neighbourhood(ctx, "extended-zoo", &zoo, if ctx.thorough() { &all } else { &MENU }, 0, check);
}
