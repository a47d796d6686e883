//! Reference decoders of extended capabilities: error reporting, virtual channels, root complex,
//! vendor-specific. Layouts: PCIe 6.0 base; linux pci_regs.h. `d` starts after the capability
//! header unless the function says it starts at the header.

pub mod aer {
use crate::*;
use pcics::extended_capabilities::advanced_error_reporting::*;

pub fn m_uncorrectable_error(v: u32) -> UncorrectableError {
    UncorrectableError {
        link_training_error: bit(v, 0),
        data_link_protocol_error_status: bit(v, 4),
        surprise_down_error_status: bit(v, 5),
        poisoned_tlp_received_status: bit(v, 12),
        flow_control_protocol_error_status: bit(v, 13),
        completion_timeout_status: bit(v, 14),
        completer_abort_status: bit(v, 15),
        unexpected_completion_status: bit(v, 16),
        receiver_overflow_status: bit(v, 17),
        malformed_tlp_status: bit(v, 18),
        ecrc_error_status: bit(v, 19),
        unsupported_request_error_status: bit(v, 20),
        acs_violation_status: bit(v, 21),
        uncorrectable_internal_error_status: bit(v, 22),
        mc_blocked_tlp_status: bit(v, 23),
        atomicop_egress_blocked_status: bit(v, 24),
        tlp_prefix_blocked_error_status: bit(v, 25),
        poisoned_tlp_egress_blocked_status: bit(v, 26),
    }
}

pub fn m_correctable_error(v: u32) -> CorrectableError {
    CorrectableError {
        receiver_error_status: bit(v, 0),
        bad_tlp_status: bit(v, 6),
        bad_dllp_status: bit(v, 7),
        replay_num_rollover_status: bit(v, 8),
        replay_timer_timeout_status: bit(v, 12),
        advisory_non_fatal_error_status: bit(v, 13),
        corrected_internal_error_status: bit(v, 14),
        header_log_overflow_status: bit(v, 15),
    }
}

pub fn m_advanced_error_capabilities_and_control(v: u32) -> AdvancedErrorCapabilitiesAndControl {
    AdvancedErrorCapabilitiesAndControl {
        first_error_pointer: f8(v, 0, 4),
        ecrc_generation_capable: bit(v, 5),
        ecrc_generation_enable: bit(v, 6),
        ecrc_check_capable: bit(v, 7),
        ecrc_check_enable: bit(v, 8),
        multiple_header_recording_capable: bit(v, 9),
        multiple_header_recording_enable: bit(v, 10),
        tlp_prefix_log_present: bit(v, 11),
        completion_timeout_prefix_or_header_log_capable: bit(v, 12),
    }
}

pub fn m_root_error_command(v: u32) -> RootErrorCommand {
    RootErrorCommand {
        correctable_error_reporting_enable: bit(v, 0),
        non_fatal_error_reporting_enable: bit(v, 1),
        fatal_error_reporting_enable: bit(v, 2),
    }
}

pub fn m_root_error_status(v: u32) -> RootErrorStatus {
    RootErrorStatus {
        err_cor_received: bit(v, 0),
        multiple_err_cor_received: bit(v, 1),
        err_fatal_or_nonfatal_received: bit(v, 2),
        multiple_err_fatal_or_nonfatal_received: bit(v, 3),
        first_uncorrectable_fatal: bit(v, 4),
        non_fatal_error_messages_received: bit(v, 5),
        fatal_error_messages_received: bit(v, 6),
        advanced_error_interrupt_message_number: f8(v, 27, 31),
    }
}

pub fn dwords(d: &[u8], o: usize) -> [u32; 4] {
    core::array::from_fn(|i| u32at(d, o + 4 * i))
}
/// Offsets are those of the specification less the 4-byte capability header
pub fn expect(d: &[u8]) -> Result<AdvancedErrorReporting, AdvancedErrorReportingError> {
    if d.len() < 0x28 { return Err(AdvancedErrorReportingError::Common); }
    let control = m_advanced_error_capabilities_and_control(u32at(d, 0x14));
    let root = d.len() >= 0x34;
    let tlp_prefix_log = if bit(u32at(d, 0x14), 11) {
        if d.len() < 0x44 { return Err(AdvancedErrorReportingError::TlpPrefixLog); }
        Some(TlpPrefixLog(dwords(d, 0x34)))
    } else {
        None
    };
    Ok(AdvancedErrorReporting {
        uncorrectable_error_status: m_uncorrectable_error(u32at(d, 0x00)),
        uncorrectable_error_mask: m_uncorrectable_error(u32at(d, 0x04)),
        uncorrectable_error_severity: m_uncorrectable_error(u32at(d, 0x08)),
        correctable_error_status: m_correctable_error(u32at(d, 0x0c)),
        correctable_error_mask: m_correctable_error(u32at(d, 0x10)),
        advanced_error_capabilities_and_control: control,
        header_log: HeaderLog(dwords(d, 0x18)),
        root_error_command: root.then(|| m_root_error_command(u32at(d, 0x28))),
        root_error_status: root.then(|| m_root_error_status(u32at(d, 0x2c))),
        error_source_identification: root.then(|| ErrorSourceIdentification {
            err_cor_source_identification: u16at(d, 0x30),
            err_fatal_or_nonfatal_source_identification: u16at(d, 0x32),
        }),
        tlp_prefix_log,
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp_err(AdvancedErrorReporting::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&AdvancedErrorReporting::try_from(d)); }
}

pub mod dpc {
use crate::*;
use pcics::extended_capabilities::downstream_port_containment::*;

pub fn m_dpc_capability(v: u16) -> DpcCapability {
    DpcCapability {
        dpc_interrupt_message_number: f8(v, 0, 4),
        rp_extensions_for_dpc: bit(v, 5),
        poisoned_tlp_egress_blocking_supported: bit(v, 6),
        dpc_software_triggering_supported: bit(v, 7),
        rp_pio_log_size: f8(v, 8, 11),
        dl_active_err_cor_signaling_supported: bit(v, 12),
    }
}

pub fn m_dpc_control(v: u16) -> DpcControl {
    DpcControl {
        dpc_trigger_enable: m_dpc_trigger(f8(v, 0, 1)),
        dpc_completion_control: bit(v, 2),
        dpc_interrupt_enable: bit(v, 3),
        dpc_err_cor_enable: bit(v, 4),
        poisoned_tlp_egress_blocking_enable: bit(v, 5),
        dpc_software_trigger: bit(v, 6),
        dl_active_err_cor_enable: bit(v, 7),
    }
}

pub fn m_dpc_trigger(v: u8) -> DpcTrigger {
    match v {
        0b00 => DpcTrigger::Disabled,
        0b01 => DpcTrigger::ErrFatalMessage,
        0b10 => DpcTrigger::ErrNonFatalMessage,
        _ => DpcTrigger::Reserved,
    }
}

pub fn m_dpc_status(v: u16) -> DpcStatus {
    DpcStatus {
        dpc_trigger_status: bit(v, 0),
        dpc_trigger_reason: DpcTriggerReason::new(
            f8(v, 1, 2),
            f8(v, 5, 6),
        ), 
        dpc_interrupt_status: bit(v, 3),
        dpc_rp_busy: bit(v, 4),
        rp_pio_first_error_pointer: f8(v, 8, 12),
    }
}

pub fn m_rp_pio(v: u32) -> RpPio {
    RpPio {
        cfg_ur_cpl: bit(v, 0),
        cfg_ca_cpl: bit(v, 1),
        cfg_cto: bit(v, 2),
        io_ur_cpl: bit(v, 8),
        io_ca_cpl: bit(v, 9),
        io_cto: bit(v, 10),
        mem_ur_cpl: bit(v, 16),
        mem_ca_cpl: bit(v, 17),
        mem_cto: bit(v, 18),
    }
}

pub fn reason(v: u8, ext: u8) -> DpcTriggerReason {
    match (v, ext) {
        (0, _) => DpcTriggerReason::UnmaskedUncorrectableError,
        (1, _) => DpcTriggerReason::ReceivingAnErrNonFatal,
        (2, _) => DpcTriggerReason::ReceivingAnErrFatal,
        (_, 0) => DpcTriggerReason::RpPioError,
        (_, 1) => DpcTriggerReason::DpcSoftwareTriggerBit,
        (_, e) => DpcTriggerReason::Reserved(e),
    }
}
pub fn expect(d: &[u8]) -> Result<DownstreamPortContainment, DownstreamPortContainmentError> {
    use DownstreamPortContainmentError as E;
    if d.len() < 8 { return Err(E::Mandatory); }
    let caps = u16at(d, 0);
    let size = f8(caps, 8, 11) as usize;
    let rp_extensions = if !bit(caps, 5) { None } else {
        if d.len() < 44 { return Err(E::RpExtensions); }
        let rp_pio_impspec_log = if size < 5 { None } else {
            if d.len() < 48 { return Err(E::RpPioImpspecLog); }
            Some(u32at(d, 44))
        };
        // prefix log: what the log size leaves after the header log (4) and ImpSpec log (1)
        let rp_pio_tlp_prefix_log = if size <= 5 { None } else {
            let mut log = [0; 4];
            for i in 0..(size - 5).min(4) {
                if d.len() < 48 + 4 * i + 4 { return Err(E::RpPioTlpPrefixLog { number: i }); }
                log[i] = u32at(d, 48 + 4 * i);
            }
            Some(TlpPrefixLog(log))
        };
        Some(RpExtensions {
            rp_pio_status: m_rp_pio(u32at(d, 8)),
            rp_pio_mask: m_rp_pio(u32at(d, 12)),
            rp_pio_severity: m_rp_pio(u32at(d, 16)),
            rp_pio_syserr: m_rp_pio(u32at(d, 20)),
            rp_pio_exception: m_rp_pio(u32at(d, 24)),
            rp_pio_header_log: HeaderLog(super::aer::dwords(d, 28)),
            rp_pio_impspec_log,
            rp_pio_tlp_prefix_log,
        })
    };
    let mut dpc_status = m_dpc_status(u16at(d, 4));
    dpc_status.dpc_trigger_reason = reason(f8(u16at(d, 4), 1, 2), f8(u16at(d, 4), 5, 6));
    Ok(DownstreamPortContainment {
        dpc_capability: m_dpc_capability(caps),
        dpc_control: m_dpc_control(u16at(d, 2)),
        dpc_status,
        dpc_error_source_id: u16at(d, 6),
        rp_extensions,
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = DownstreamPortContainment::try_from(d);
    if let Ok(x) = &r {
        let (v, e) = (f8(u16at(d, 4), 1, 2), f8(u16at(d, 4), 5, 6));
        // the extension is only meaningful for reason 11b
        same(&(v, if v == 3 { e } else { 0 }), &(x.dpc_status.dpc_trigger_reason.value(), x.dpc_status.dpc_trigger_reason.extension_value()))?;
    }
    cmp_err(r, expect(d))
}
pub fn walk(d: &[u8]) { sink(&DownstreamPortContainment::try_from(d)); let _ = check(d); }
}

pub mod vc {
use crate::*;
use pcics::extended_capabilities::virtual_channel::*;

pub fn m_port_vc_capability1(v: u32) -> PortVcCapability1 {
    PortVcCapability1 {
        extended_vc_count: f8(v, 0, 2),
        low_priority_extended_vc_count: f8(v, 4, 6),
        reference_clock: m_reference_clock(f8(v, 8, 9)),
        port_arbitration_table_entry_size: m_port_arbitration_table_entry_size(f8(v, 10, 11)),
    }
}

pub fn m_reference_clock(v: u8) -> ReferenceClock {
    match v {
        0b000 => ReferenceClock::Rc100ns,
        n => ReferenceClock::Reserved(n),
    }
}

pub fn m_vc_resource_capability(v: u32) -> VcResourceCapability {
    VcResourceCapability {
        port_arbitration_capability: PortArbitrationCapability {
            hardware_fixed_arbitration: bit(v, 0),
            wrr_32_phases: bit(v, 1),
            wrr_64_phases: bit(v, 2),
            wrr_128_phases: bit(v, 3),
            time_based_wrr_128_phases: bit(v, 4),
            wrr_256_phases: bit(v, 5),
            reserved: f8(v, 6, 7),
        },
        advanced_packet_switching: bit(v, 14),
        reject_snoop_transactions: bit(v, 15),
        maximum_time_slots: f8(v, 16, 22),
        port_arbitration_table_offset: f8(v, 24, 31),
    }
}

pub fn m_vc_resource_control(v: u32) -> VcResourceControl {
    VcResourceControl {
        tc_or_vc_map: f8(v, 0, 7),
        load_port_arbitration_table: bit(v, 16),
        port_arbitration_select: m_port_arbitration_select(f8(v, 17, 19)),
        vc_id: f8(v, 24, 26),
        vc_enable: bit(v, 31),
    }
}

pub fn m_port_arbitration_select(v: u8) -> PortArbitrationSelect {
    match v {
        0b000 => PortArbitrationSelect::HardwareFixedArbitration,
        0b001 => PortArbitrationSelect::Wrr32phases,
        0b010 => PortArbitrationSelect::Wrr64phases,
        0b011 => PortArbitrationSelect::Wrr128phases,
        0b100 => PortArbitrationSelect::TimeBasedWrr128phases,
        0b101 => PortArbitrationSelect::Wrr256phases,
        n => PortArbitrationSelect::Reserved(n),
    }
}

pub fn m_vc_resource_status(v: u16) -> VcResourceStatus {
    VcResourceStatus {
        port_arbitration_table_status: bit(v, 0),
        vc_negotiation_pending: bit(v, 1),
    }
}

pub fn m_port_vc_capability2(v: u32) -> PortVcCapability2 {
    PortVcCapability2 {
        vc_arbitration_capability: VcArbitrationCapability {
            hardware_fixed_arbitration: bit(v, 0),
            wrr_32_phases: bit(v, 1),
            wrr_64_phases: bit(v, 2),
            wrr_128_phases: bit(v, 3),
            reserved: f8(v, 4, 7),
        },
        vc_arbitration_table_offset: f8(v, 24, 31),
    }
}

pub fn m_port_vc_control(v: u16) -> PortVcControl {
    PortVcControl {
        load_vc_arbitration_table: bit(v, 0),
        vc_arbitration_select: m_vc_arbitration_select(f8(v, 1, 3)),
    }
}

pub fn m_vc_arbitration_select(v: u8) -> VcArbitrationSelect {
    match v {
        0b000 => VcArbitrationSelect::HardwareFixedArbitration,
        0b001 => VcArbitrationSelect::Wrr32phases,
        0b010 => VcArbitrationSelect::Wrr64phases,
        0b011 => VcArbitrationSelect::Wrr128phases,
        n => VcArbitrationSelect::Reserved(n),
    }
}

pub fn m_port_vc_status(v: u16) -> PortVcStatus {
    PortVcStatus {
        vc_arbitration_table_status: bit(v, 0),
    }
}

pub fn m_port_arbitration_table_entry_size(v: u8) -> PortArbitrationTableEntrySize {
    PortArbitrationTableEntrySize::from(v)
}
pub fn m_extended_virtual_channel(d: &[u8]) -> ExtendedVirtualChannel {
    ExtendedVirtualChannel {
        vc_resource_capability: m_vc_resource_capability(u32at(d, 0)),
        vc_resource_control: m_vc_resource_control(u32at(d, 4)),
        vc_resource_status: m_vc_resource_status(u16at(d, 10)),
    }
}
/// `len` bytes at `off` x 16 from the capability header, if there are that many. An offset of 0 means no table.
fn table(d: &[u8], off: u8, len: usize) -> &[u8] {
    if off == 0 { return &[]; }
    d.get(off as usize * 16 - 4..).and_then(|t| t.get(..len)).unwrap_or(&[])
}
/// Consecutive `bits`-wide entries, least significant first
pub fn split(t: &[u8], bits: usize) -> Vec<u8> {
    (0..t.len() * 8 / bits)
        .map(|i| ((t[i * bits / 8] as u32 >> (i * bits % 8)) & ((1u32 << bits) - 1)) as u8)
        .collect()
}
pub const PHASES: [usize; 8] = [0, 32, 64, 128, 128, 256, 0, 0];
/// The list, and that it stays ended
pub fn all<I: Iterator>(mut it: I, cap: usize) -> Result<Vec<I::Item>, String> {
    let v: Vec<_> = it.by_ref().take(cap + 1).collect();
    if v.len() > cap { return Err(format!("more than {cap} items")); }
    for _ in 0..3 {
        if it.next().is_some() { return Err("an item after the end".into()); }
    }
    Ok(v)
}
fn port_entry(v: u8) -> PortArbitrationTableEntry {
    PortArbitrationTable::new(&[v], 8).next().expect("one entry")
}
pub fn check(d: &[u8]) -> Verdict {
    let r = match (VirtualChannel::try_from(d), d.len() >= 12) {
        (Ok(x), true) => x,
        (Err(_), false) => return Ok("error"),
        (r, _) => return Err(format!("real {r:?}")),
    };
    let (c1, c2, ctl) = (u32at(d, 0), u32at(d, 4), u16at(d, 8));
    same(&m_port_vc_capability1(c1), &r.port_vc_capability_1)?;
    same(&m_port_vc_capability2(c2), &r.port_vc_capability_2)?;
    same(&m_port_vc_control(ctl), &r.port_vc_control)?;
    same(&m_port_vc_status(u16at(d, 10)), &r.port_vc_status)?;
    let phases = [0, 32, 64, 128, 0, 0, 0, 0][f8(ctl, 1, 3) as usize];
    same(&phases, &r.port_vc_control.vc_arbitration_select.vc_arbitration_table_length())?;
    let vat: Vec<_> = split(table(d, f8(c2, 24, 31), phases / 2), 4).iter().map(|v| VcArbitrationTableEntry { vc_id: v & 7 }).collect();
    same(&vat, &all(r.vc_arbitration_table(), 128)?)?;
    let bits = 1usize << f8(c1, 10, 11);
    same(&bits, &r.port_vc_capability_1.port_arbitration_table_entry_size.bits())?;
    let want: Vec<ExtendedVirtualChannel> = (0..=f8(c1, 0, 2) as usize)
        .map_while(|i| d.get(12 + 12 * i..24 + 12 * i)).map(m_extended_virtual_channel).collect();
    let real = all(r.extended_virtual_channels(), 8)?;
    let real: Vec<ExtendedVirtualChannel> = real.into_iter().collect::<Result<_, _>>().map_err(|e| format!("{e:?}"))?;
    same(&want, &real)?;
    for (i, evc) in real.iter().enumerate() {
        let (cap, ctl) = (u32at(d, 12 + 12 * i), u32at(d, 16 + 12 * i));
        let n = PHASES[f8(ctl, 17, 19) as usize];
        same(&n, &evc.vc_resource_control.port_arbitration_select.port_arbitration_table_length())?;
        let pat: Vec<_> = split(table(d, f8(cap, 24, 31), n * bits / 8), bits).into_iter().map(port_entry).collect();
        let got = all(r.port_arbitration_table(evc), 256)?;
        same(&pat, &got)?;
    }
    Ok("decoded")
}
pub fn walk(d: &[u8]) {
    let r = VirtualChannel::try_from(d);
    sink(&r);
    if let Ok(r) = r {
        for e in r.vc_arbitration_table().take(300) { sink(&e); }
        for e in r.extended_virtual_channels().take(20) {
            sink(&e);
            if let Ok(e) = e { sink(&r.port_arbitration_table(&e).take(300).count()); }
        }
    }
}
}

pub mod mfvc {
use crate::*;
use pcics::extended_capabilities::multifunction_virtual_channel::*;

pub fn m_port_vc_capability1(v: u32) -> PortVcCapability1 {
    PortVcCapability1 {
        extended_vc_count: f8(v, 0, 2),
        low_priority_extended_vc_count: f8(v, 4, 6),
        reference_clock: m_reference_clock(f8(v, 8, 9)),
        function_arbitration_table_entry_size: m_function_arbitration_table_entry_size(f8(
            v, 10, 11,
        )),
    }
}

pub fn m_function_arbitration_table_entry_size(v: u8) -> FunctionArbitrationTableEntrySize {
    FunctionArbitrationTableEntrySize(v)
}

pub fn m_vc_resource_capability(v: u32) -> VcResourceCapability {
    VcResourceCapability {
        function_arbitration_capability: FunctionArbitrationCapability {
            hardware_fixed_arbitration: bit(v, 0),
            wrr_32_phases: bit(v, 1),
            wrr_64_phases: bit(v, 2),
            wrr_128_phases: bit(v, 3),
            time_based_wrr_128_phases: bit(v, 4),
            wrr_256_phases: bit(v, 5),
            reserved: f8(v, 6, 7),
        },
        maximum_time_slots: f8(v, 16, 22),
        function_arbitration_table_offset: f8(v, 24, 31),
    }
}

pub fn m_vc_resource_control(v: u32) -> VcResourceControl {
    VcResourceControl {
        tc_to_vc_map: f8(v, 0, 7),
        load_function_arbitration_table: bit(v, 16),
        function_arbitration_select: m_function_arbitration_select(f8(v, 17, 19)),
        vc_id: f8(v, 24, 26),
        vc_enable: bit(v, 31),
    }
}

pub fn m_function_arbitration_select(v: u8) -> FunctionArbitrationSelect {
    match v {
        0b000 => FunctionArbitrationSelect::HardwareFixedArbitration,
        0b001 => FunctionArbitrationSelect::Wrr32phases,
        0b010 => FunctionArbitrationSelect::Wrr64phases,
        0b011 => FunctionArbitrationSelect::Wrr128phases,
        0b100 => FunctionArbitrationSelect::TimeBasedWrr128phases,
        0b101 => FunctionArbitrationSelect::Wrr256phases,
        n => FunctionArbitrationSelect::Reserved(n),
    }
}

pub fn m_vc_resource_status(v: u16) -> VcResourceStatus {
    VcResourceStatus {
        function_arbitration_table_status: bit(v, 0),
        vc_negotiation_pending: bit(v, 1),
    }
}

use super::vc::{all, m_port_vc_capability2, m_port_vc_control, m_port_vc_status, m_reference_clock, split, PHASES};
use pcics::extended_capabilities::virtual_channel::VcArbitrationTableEntry;
type E = MultifunctionVirtualChannelError;
fn function_entry(v: u8) -> FunctionArbitrationTableEntry {
    FunctionArbitrationTable::new(&[v], 8).next().expect("one entry")
}
type Evc = (VcResourceCapability, VcResourceControl, VcResourceStatus, Option<Vec<FunctionArbitrationTableEntry>>);
type Model = (PortVcCapability1, PortVcCapability2, PortVcControl, PortVcStatus, Option<Vec<VcArbitrationTableEntry>>, Vec<Evc>);
/// Data starts at the capability header
pub fn expect(d: &[u8]) -> Result<Model, E> {
    if d.len() < 16 { return Err(E::PortVcData); }
    let (c1, c2, ctl) = (u32at(d, 4), u32at(d, 8), u16at(d, 12));
    let off = f8(c2, 24, 31) as usize * 16;
    let vat = match off {
        0 => None,
        16 => return Err(E::VcArbitrationTableOffset),
        _ => {
            if off > d.len() { return Err(E::VcArbitrationTableData); }
            let expected = [0, 16, 32, 64, 0, 0, 0, 0][f8(ctl, 1, 3) as usize];
            let real = d.len() - off;
            if real < expected { return Err(E::VcArbitrationTableLength { expected, real }); }
            Some(split(&d[off..off + expected], 4).iter().map(|v| VcArbitrationTableEntry { vc_id: v & 7 }).collect())
        }
    };
    let bits = 1usize << f8(c1, 10, 11);
    let evcs = (0..=f8(c1, 0, 2) as usize)
        .map_while(|i| d.get(16 + 12 * i..28 + 12 * i))
        .map(|e| {
            let (cap, ctl) = (u32at(e, 0), u32at(e, 4));
            let off = f8(cap, 24, 31) as usize * 16;
            let len = PHASES[f8(ctl, 17, 19) as usize] * bits / 8;
            let table = if off < 32 { None } else { d.get(off..).and_then(|t| t.get(..len)) };
            (m_vc_resource_capability(cap), m_vc_resource_control(ctl), m_vc_resource_status(u16at(e, 10)),
             table.map(|t| split(t, bits).into_iter().map(function_entry).collect()))
        })
        .collect();
    Ok((m_port_vc_capability1(c1), m_port_vc_capability2(c2), m_port_vc_control(ctl), m_port_vc_status(u16at(d, 14)), vat, evcs))
}
pub fn check(d: &[u8]) -> Verdict {
    let real = match MultifunctionVirtualChannel::try_from(d) {
        Err(e) => Err(e),
        Ok(m) => {
            let bits = 1usize << f8(u32at(d, 4), 10, 11);
            same(&bits, &m.port_vc_capability_1.function_arbitration_table_entry_size.bits())?;
            let vat = match m.vc_arbitration_table.clone() { None => None, Some(t) => Some(all(t, 128)?) };
            let mut evcs = vec![];
            for e in all(m.extended_virtual_channels.clone(), 8)? {
                let fat = match e.function_arbitration_table.clone() { None => None, Some(t) => Some(all(t, 256)?) };
                let i = evcs.len();
                same(&PHASES[f8(u32at(d, 20 + 12 * i), 17, 19) as usize], &e.vc_resource_control.function_arbitration_select.function_arbitration_table_length())?;
                evcs.push((e.vc_resource_capability, e.vc_resource_control, e.vc_resource_status, fat));
            }
            Ok((m.port_vc_capability_1, m.port_vc_capability_2, m.port_vc_control, m.port_vc_status, vat, evcs))
        }
    };
    cmp_err(real, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = MultifunctionVirtualChannel::try_from(d);
    sink(&r);
    if let Ok(r) = r {
        if let Some(t) = r.vc_arbitration_table { sink(&t.take(300).count()); }
        for e in r.extended_virtual_channels.take(20) {
            sink(&e);
            if let Some(t) = e.function_arbitration_table.clone() { sink(&t.take(300).count()); }
            sink(&<[u8; 12]>::from(e));
        }
    }
}
}

pub mod dsn {
use crate::*;
use pcics::extended_capabilities::device_serial_number::*;



pub fn expect(d: &[u8]) -> Option<DeviceSerialNumber> {
    (d.len() >= 8).then(|| DeviceSerialNumber { lower_dword: u32at(d, 0), upper_dword: u32at(d, 4) })
}
pub fn check(d: &[u8]) -> Verdict { cmp(DeviceSerialNumber::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&DeviceSerialNumber::try_from(d)); }
}

pub mod pb {
use crate::*;
use pcics::extended_capabilities::power_budgeting::*;

pub fn m_base_power(v: u8) -> BasePower {
    match v {
        v @ 0x00..=0xEF => BasePower::Value(v),
        0xF0 => BasePower::Gt239Le250,
        0xF1 => BasePower::Gt250Le275,
        0xF2 => BasePower::Gt275Le300,
        _ => BasePower::Gt300,
    }
}

pub fn m_data_scale(v: u8) -> DataScale {
    match v {
        0b00 => DataScale::One,
        0b01 => DataScale::Deci,
        0b10 => DataScale::Centi,
        0b11 => DataScale::Milli,
        _ => unreachable!(),
    }
}

pub fn m_pm_sub_state(v: u8) -> PmSubState {
    match v {
        0b00 => PmSubState::Default,
        n => PmSubState::Specific(n),
    }
}

pub fn m_pm_state(v: u8) -> PmState {
    match v {
        0b00 => PmState::D0,
        0b01 => PmState::D1,
        0b10 => PmState::D2,
        0b11 => PmState::D3,
        _ => unreachable!(),
    }
}

pub fn m_operation_condition_type(v: u8) -> OperationConditionType {
    match v {
        0b000 => OperationConditionType::PmeAux,
        0b001 => OperationConditionType::Auxiliary,
        0b010 => OperationConditionType::Idle,
        0b011 => OperationConditionType::Sustained,
        0b100 => OperationConditionType::SustainedEmergencyPowerReductionState,
        0b101 => OperationConditionType::MaximumEmergencyPowerReductionState,
        0b111 => OperationConditionType::Maximum,
        n => OperationConditionType::Reserved(n),
    }
}

pub fn m_power_rail(v: u8) -> PowerRail {
    match v {
        0b00 => PowerRail::Power12v,
        0b01 => PowerRail::Power3_3v,
        0b10 => PowerRail::Power1_5vOr1_8v,
        0b111 => PowerRail::Thermal,
        n => PowerRail::Reserved(n),
    }
}

pub fn expect(d: &[u8]) -> Option<PowerBudgeting> {
    if d.len() < 12 { return None; }
    let v = u32at(d, 4);
    Some(PowerBudgeting {
        data_select: d[0],
        data: Data {
            base_power: m_base_power(f8(v, 0, 7)),
            data_scale: m_data_scale(f8(v, 8, 9)),
            pm_sub_state: m_pm_sub_state(f8(v, 10, 12)),
            pm_state: m_pm_state(f8(v, 13, 14)),
            operation_condition_type: m_operation_condition_type(f8(v, 15, 17)),
            power_rail: m_power_rail(f8(v, 18, 20)),
        },
        power_budget_capability: PowerBudgetCapability { system_allocated: bit(d[8], 0) },
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = PowerBudgeting::try_from(d);
    if let Ok(p) = &r {
        same(&[1.0, 0.1, 0.01, 0.001][f8(u32at(d, 4), 8, 9) as usize], &p.data.data_scale.multiplier())?;
    }
    cmp(r, expect(d))
}
pub fn walk(d: &[u8]) { sink(&PowerBudgeting::try_from(d)); }
}

pub mod rcld {
use crate::*;
use pcics::extended_capabilities::root_complex_link_declaration::*;

pub fn m_element_type(v: u8) -> ElementType {
match v {
            0x00 => ElementType::ConfigurationSpaceElement,
            0x01 => ElementType::SystemEgressPortOrInternalSink,
            0x02 => ElementType::InternalRootComplexLink,
            n => ElementType::Reserved(n),
        }
}

pub fn m_link_description(v: u32) -> LinkDescription {
LinkDescription {
link_valid: bit(v, 0),
link_type: f8(v, 1, 1),
associate_rcrb_header: bit(v, 2),
target_component_id: f8(v, 16, 23),
target_port_number: f8(v, 24, 31),
}
}

pub fn m_element_self_description(v: u32) -> ElementSelfDescription {
    ElementSelfDescription {
        element_type: m_element_type(f8(v, 0, 3)),
        reserved: f8(v, 4, 7),
        number_of_link_entries: f8(v, 8, 15),
        component_id: f8(v, 16, 23),
        port_number: f8(v, 24, 31),
    }
}
pub fn address(config: bool, lo: u32, hi: u32) -> LinkAddress {
    let qword = (hi as u64) << 32 | lo as u64;
    if !config { return LinkAddress::MemoryMappedSpace(qword); }
    let n = match f8(lo, 0, 2) { 0 => 8, n => n };
    let top = 20 + n as u32;
    LinkAddress::ConfigurationSpace {
        n,
        reserved: f16(lo, 3, 11),
        function: f8(lo, 12, 14),
        device: f8(lo, 15, 19),
        bus: f8(lo, 20, top - 1),
        address: qword >> top << top,
    }
}
pub fn entry(e: &[u8]) -> LinkEntry {
    let link_description = m_link_description(u32at(e, 0));
    LinkEntry { link_address: address(bit(u32at(e, 0), 1), u32at(e, 8), u32at(e, 12)), link_description }
}
type Model = (ElementSelfDescription, LinkEntriesState, Vec<LinkEntry>);
pub fn expect(d: &[u8]) -> Result<Model, RootComplexLinkDeclarationError> {
    use RootComplexLinkDeclarationError as E;
    if d.len() < 4 { return Err(E::ElementSelfDescription); }
    let element_self_description = m_element_self_description(u32at(d, 0));
    let n = d[1] as usize;
    if n == 0 { return Err(E::NumberOfLinkEntries { element_self_description }); }
    if d.len() < 12 { return Err(E::ReservedSpace { element_self_description }); }
    let body = &d[12..];
    if body.len() < 16 { return Err(E::LinkEntry1 { element_self_description }); }
    let state = if body.len() >= 16 * n { LinkEntriesState::Valid }
        else if body.len() % 16 == 0 { LinkEntriesState::Incomplete }
        else { LinkEntriesState::Invalid };
    Ok((element_self_description, state, body.chunks_exact(16).take(n).map(entry).collect()))
}
pub fn check(d: &[u8]) -> Verdict {
    let real = match RootComplexLinkDeclaration::try_from(d) {
        Err(e) => Err(e),
        Ok(r) => Ok((r.element_self_description, r.link_entries.state.clone(), super::vc::all(r.link_entries, 256)?)),
    };
    cmp_err(real, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = RootComplexLinkDeclaration::try_from(d);
    sink(&r);
    if let Ok(r) = r {
        sink(&u8::from(r.element_self_description.element_type));
        for e in r.link_entries.take(300) { sink(&e); sink(&<[u32; 2]>::from(e.link_address)); }
    }
}
}

pub mod rcilc {
use crate::*;
use pcics::extended_capabilities::root_complex_internal_link_control::*;

pub fn m_root_complex_link_capabilities(v: u32) -> RootComplexLinkCapabilities {
    RootComplexLinkCapabilities {
        max_link_speed: m_link_speed(f8(v, 0, 3)),
        maximum_link_width: m_link_width(f8(v, 4, 9)),
        active_state_power_management_support: m_active_state_power_management(f8(v, 10, 11)),
        l0s_exit_latency: m_l0s_exit_latency(f8(v, 12, 14)),
        l1_exit_latency: m_l1_exit_latency(f8(v, 15, 17)),
        supported_link_speeds_vector: m_supported_link_speeds_vector(f8(v, 18, 24)),
    }
}

pub fn m_root_complex_link_control(v: u16) -> RootComplexLinkControl {
    RootComplexLinkControl {
        active_state_power_management_control: m_active_state_power_management(f8(v, 0, 1)),
        extended_synch: bit(v, 7),
    }
}

pub fn m_root_complex_link_status(v: u16) -> RootComplexLinkStatus {
    RootComplexLinkStatus {
        current_link_speed: m_link_speed(f8(v, 0, 3)),
        negotiated_link_width: m_link_width(f8(v, 4, 9)),
    }
}

use crate::models::caps2::pci_express::{m_active_state_power_management, m_l0s_exit_latency, m_l1_exit_latency, m_link_speed, m_link_width, m_supported_link_speeds_vector};
pub fn expect(d: &[u8]) -> Option<RootComplexInternalLinkControl> {
    (d.len() >= 8).then(|| RootComplexInternalLinkControl {
        root_complex_link_capabilities: m_root_complex_link_capabilities(u32at(d, 0)),
        root_complex_link_control: m_root_complex_link_control(u16at(d, 4)),
        root_complex_link_status: m_root_complex_link_status(u16at(d, 6)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(RootComplexInternalLinkControl::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&RootComplexInternalLinkControl::try_from(d)); }
}

pub mod rcec {
use crate::*;
use pcics::extended_capabilities::root_complex_event_collector_endpoint_association::*;



type T = RootComplexEventCollectorEndpointAssociation;
pub fn check(d: &[u8]) -> Verdict {
    cmp(T::try_from(d), (d.len() >= 4).then(|| RootComplexEventCollectorEndpointAssociation { association_bitmap_for_rcieps: u32at(d, 0) }))
}
pub fn walk(d: &[u8]) { sink(&T::try_from(d)); }
}

pub mod rcrb {
use crate::*;
use pcics::extended_capabilities::root_complex_register_block_header::*;

pub fn m_rcrb_capabilities(v: u32) -> RcrbCapabilities {
    RcrbCapabilities {
        crs_software_visibility: bit(v, 0),
    }
}

pub fn m_rcrb_control(v: u32) -> RcrbControl {
    RcrbControl {
        crs_software_visibility_enable: bit(v, 0),
    }
}

/// Data starts at the capability header
pub fn expect(d: &[u8]) -> Option<RootComplexRegisterBlockHeader> {
    (d.len() >= 0x14).then(|| RootComplexRegisterBlockHeader {
        vendor_id: u16at(d, 4),
        device_id: u16at(d, 6),
        rcrb_capabilities: m_rcrb_capabilities(u32at(d, 8)),
        rcrb_control: m_rcrb_control(u32at(d, 12)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(RootComplexRegisterBlockHeader::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&RootComplexRegisterBlockHeader::try_from(d)); }
}

pub mod vsec {
use crate::*;
use pcics::extended_capabilities::vendor_specific_extended_capability::*;



pub fn expect(d: &[u8]) -> Option<VendorSpecificExtendedCapability<'_>> {
    if d.len() < 4 { return None; }
    let v = u32at(d, 0);
    let vsec_length = f16(v, 20, 31);
    // the length counts the capability header and this header
    let body = &d[4..];
    let registers = if vsec_length < 8 { VsecRegisters::InvalidLength(vsec_length) }
        else if body.len() < vsec_length as usize - 8 { VsecRegisters::Incomplete(body) }
        else { VsecRegisters::Valid(&body[..vsec_length as usize - 8]) };
    Some(VendorSpecificExtendedCapability {
        header: VsecHeader { vsec_id: f16(v, 0, 15), vsec_rev: f8(v, 16, 19), vsec_length },
        registers,
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(VendorSpecificExtendedCapability::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&VendorSpecificExtendedCapability::try_from(d)); }
}

pub mod cac {
use crate::*;
use pcics::extended_capabilities::configuration_access_correlation::*;



/// Data starts at the capability header
pub fn check(d: &[u8]) -> Verdict {
    cmp(ConfigurationAccessCorrelation::try_from(d), (d.len() >= 8).then(|| ConfigurationAccessCorrelation { device_correlation: u32at(d, 4) }))
}
pub fn walk(d: &[u8]) { sink(&ConfigurationAccessCorrelation::try_from(d)); }
}

