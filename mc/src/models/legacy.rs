//! Reference decoders for the conventional capabilities (data starts after ID and next pointer).
//! Layouts: PCI Local Bus 3.0, PCI PM 1.2, AGP 3.0, PCIe 6.0 base; linux pci_regs.h.

pub mod agp {
use crate::*;
use pcics::capabilities::accelerated_graphics_port::*;

pub fn m_identifier(v: u16) -> Identifier {
    Identifier { minor: f8(v, 0, 3), major: f8(v, 4, 7) }
}

pub fn m_status(v: u32) -> Status {
    Status {
        rq: f8(v, 24, 31),
        isoch_support: bit(v, 17),
        reserved: bit(v, 16),
        arqsz: f8(v, 13, 15),
        cal_cycle: m_cal_cycle(f8(v, 10, 12)),
        sba: bit(v, 9),
        ita_coh: bit(v, 8),
        gart64b: bit(v, 7),
        htrans: bit(v, 6),
        over4g: bit(v, 5),
        fw: bit(v, 4),
        agp_3_0_mode: bit(v, 3),
        rate: m_data_rate_support(f8(v, 0, 2)),
    }
}

pub fn m_cal_cycle(v: u8) -> CalCycle {
    match v {
        0b000 => CalCycle::Period4ms,
        0b001 => CalCycle::Period16ms,
        0b010 => CalCycle::Period64ms,
        0b011 => CalCycle::Period256ms,
        0b111 => CalCycle::CalibrationCycleNotNeeded,
        n => CalCycle::Reserved(n),
    }
}

pub fn m_data_rate_support(v: u8) -> DataRateSupport {
    match v {
        0b001 => DataRateSupport::Speed4x,
        0b010 => DataRateSupport::Speed8x,
        0b011 => DataRateSupport::Speed4xAnd8x,
        n => DataRateSupport::Reserved(n),
    }
}

pub fn m_command(v: u32) -> Command {
    Command {
        prq: f8(v, 24, 31),
        parqsz: f8(v, 13, 15),
        pcal_cycle: m_cal_cycle(f8(v, 10, 12)),
        sba_enable: bit(v, 9),
        agp_enable: bit(v, 8),
        gart64b: bit(v, 7),
        over4g: bit(v, 5),
        fw_enable: bit(v, 4),
        drate: m_data_rate_enabled(f8(v, 0, 2)),
    }
}

pub fn m_data_rate_enabled(v: u8) -> DataRateEnabled {
    match v {
        0b001 => DataRateEnabled::Speed4x,
        0b010 => DataRateEnabled::Speed8x,
        n => DataRateEnabled::Reserved(n),
    }
}

pub fn m_isochronous_status(v: u32) -> IsochronousStatus {
    IsochronousStatus {
        maxbw: f8(v, 16, 23),
        isoch_n: f8(v, 8, 15),
        isoch_y: IsochY(f8(v, 6, 7)),
        isoch_l: f8(v, 3, 5),
        isoch_error_code: IsochErrorCode(f8(v, 0, 1)),
    }
}

pub fn m_control(v: u32) -> Control {
    Control {
        cal_cycle_dis: bit(v, 9),
        aperenb: bit(v, 8),
        gtlben: bit(v, 7),
    }
}

pub fn m_isochronous_command(v: u16) -> IsochronousCommand {
    IsochronousCommand {
        pisoch_n: f8(v, 8, 15),
        pisoch_y: f8(v, 6, 7),
    }
}

pub fn expect(d: &[u8]) -> Option<AcceleratedGraphicsPort> {
    if d.len() < 10 { return None; }
    let status = m_status(u32at(d, 2));
    let isoch = status.isoch_support;
    let has = |end: usize| d.len() >= end;
    Some(AcceleratedGraphicsPort {
        identifier: m_identifier(u16at(d, 0)),
        status,
        command: m_command(u32at(d, 6)),
        isochronous_status: (isoch && has(14)).then(|| m_isochronous_status(u32at(d, 10))),
        control: has(18).then(|| m_control(u32at(d, 14))),
        aperture_size: has(20).then(|| ApertureSize(u16at(d, 18))),
        enabled_aperture_page_size: has(22).then(|| EnabledAperturePageSize(u16at(d, 20))),
        gart_pointer: has(26).then(|| GartPointer {
            gartlo: u32at(d, 22),
            garthi: if has(30) { u32at(d, 26) } else { 0 },
        }),
        isochronous_command: (isoch && has(32)).then(|| m_isochronous_command(u16at(d, 30))),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(AcceleratedGraphicsPort::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&AcceleratedGraphicsPort::try_from(d)); }

}

pub mod af {
use crate::*;
use pcics::capabilities::advanced_features::*;


pub fn expect(d: &[u8]) -> Option<AdvancedFeatures> {
    if d.len() < 4 { return None; }
    Some(AdvancedFeatures {
        length: d[0],
        capabilities: Capabilities { transactions_pending: bit(d[1], 0), function_level_reset: bit(d[1], 1) },
        control: Control { initiate_flr: bit(d[2], 0) },
        status: Status { transactions_pending: bit(d[3], 0) },
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(AdvancedFeatures::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&AdvancedFeatures::try_from(d)); }

}

pub mod ssvid {
use crate::*;
use pcics::capabilities::bridge_subsystem_vendor_id::*;


pub fn expect(d: &[u8]) -> Option<BridgeSubsystemVendorId> {
    if d.len() < 6 { return None; }
    Some(BridgeSubsystemVendorId {
        reserved: u16at(d, 0),
        subsystem_vendor_id: u16at(d, 2),
        subsystem_id: u16at(d, 4),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(BridgeSubsystemVendorId::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&BridgeSubsystemVendorId::try_from(d)); }

}

pub mod debug_port {
use crate::*;
use pcics::capabilities::debug_port::*;


pub fn expect(d: &[u8]) -> Option<DebugPort> {
    if d.len() < 2 { return None; }
    let v = u16at(d, 0);
    Some(DebugPort { offset: f16(v, 0, 12), bar_number: f8(v, 13, 15) })
}
pub fn check(d: &[u8]) -> Verdict { cmp(DebugPort::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&DebugPort::try_from(d)); }

}

pub mod msi {
use crate::*;
use pcics::capabilities::message_signaled_interrups::*;


pub fn expect(d: &[u8]) -> Result<MessageSignaledInterrups, MessageSignaledInterrupsError> {
    use MessageSignaledInterrupsError as E;
    if d.len() < 2 { return Err(E::MessageControl); }
    let v = u16at(d, 0);
    let (wide, masked) = (bit(v, 7), bit(v, 8));
    // address at 2, upper address at 6, data after, then mask and pending
    let data = if wide { 10 } else { 6 };
    let end = if masked { data + 12 } else { data + 4 };
    if d.len() < end {
        return Err(match (wide, masked) {
            (false, false) => E::Size32bit,
            (true, false) => E::Size64bit,
            (false, true) => E::Size32bitPerVector,
            (true, true) => E::Size64bitPerVector,
        });
    }
    Ok(MessageSignaledInterrups {
        message_control: MessageControl {
            msi_enable: bit(v, 0),
            multiple_message_capable: MultipleMessage(f8(v, 1, 3)),
            multiple_message_enable: MultipleMessage(f8(v, 4, 6)),
            a_64_bit_address_capable: wide,
            per_vector_masking_capable: masked,
            extended_message_data_capable: bit(v, 9),
            extended_message_data_enable: bit(v, 10),
        },
        message_address: if wide { MessageAddress::Qword(u64at(d, 2)) } else { MessageAddress::Dword(u32at(d, 2)) },
        message_data: u16at(d, data),
        extended_message_data: u16at(d, data + 2),
        mask_bits: masked.then(|| u32at(d, data + 4)),
        pending_bits: masked.then(|| u32at(d, data + 8)),
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = MessageSignaledInterrups::try_from(d);
    if let Ok(m) = &r {
        // 1 to 32 vectors; encodings 6 and 7 are reserved
        for (mm, code) in [(&m.message_control.multiple_message_capable, f8(d[0], 1, 3)), (&m.message_control.multiple_message_enable, f8(d[0], 4, 6))] {
            if code <= 5 { same(&[1u8, 2, 4, 8, 16, 32][code as usize], &mm.number_of_vectors())?; }
        }
    }
    cmp_err(r, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = MessageSignaledInterrups::try_from(d);
    sink(&r);
    if let Ok(m) = r {
        sink(&m.message_control.multiple_message_capable.number_of_vectors());
        sink(&m.message_control.multiple_message_enable.number_of_vectors());
    }
}

}

pub mod msi_x {
use crate::*;
use pcics::capabilities::msi_x::*;

pub fn m_message_control(v: u16) -> MessageControl {
MessageControl {
table_size: f16(v, 0, 10),
function_mask: bit(v, 14),
msi_x_enable: bit(v, 15),
}
}

pub fn m_bir(v: u8) -> Bir {
match v {
            0 => Bir::Bar10h,
            1 => Bir::Bar14h,
            2 => Bir::Bar18h,
            3 => Bir::Bar1Ch,
            4 => Bir::Bar20h,
            5 => Bir::Bar24h,
            n => Bir::Reserved(n),
        }
}

pub fn m_table(v: u32) -> Table {
Table {
bir: m_bir(f8(v, 0, 2)),
offset: f32(v, 3, 31) << 3,
}
}

pub fn m_pending_bit_array(v: u32) -> PendingBitArray {
PendingBitArray {
bir: m_bir(f8(v, 0, 2)),
offset: f32(v, 3, 31) << 3,
}
}



pub fn expect(d: &[u8]) -> Option<MsiX> {
    if d.len() < 10 { return None; }
    Some(MsiX {
        message_control: m_message_control(u16at(d, 0)),
        table: m_table(u32at(d, 2)),
        pending_bit_array: m_pending_bit_array(u32at(d, 6)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(MsiX::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&MsiX::try_from(d)); }

}

pub mod pm {
use crate::*;
use pcics::capabilities::power_management_interface::*;
pub fn m_aux_current(v: u8) -> AuxCurrent {
    match v {
        0 => AuxCurrent::SelfPowered,
        1 => AuxCurrent::MaxCurrent55mA,
        2 => AuxCurrent::MaxCurrent100mA,
        3 => AuxCurrent::MaxCurrent160mA,
        4 => AuxCurrent::MaxCurrent220mA,
        5 => AuxCurrent::MaxCurrent270mA,
        6 => AuxCurrent::MaxCurrent320mA,
        7 => AuxCurrent::MaxCurrent375mA,
        _ => unreachable!(),
    }
}

pub fn m_power_state(v: u8) -> PowerState {
    match v {
        0b00 => PowerState::D0,
        0b01 => PowerState::D1,
        0b10 => PowerState::D2,
        0b11 => PowerState::D3Hot,
        _ => unreachable!(),
    }
}

pub fn m_data_select(v: u8) -> DataSelect {
    match v {
        0 => DataSelect::PowerConsumedD0,
        1 => DataSelect::PowerConsumedD1,
        2 => DataSelect::PowerConsumedD2,
        3 => DataSelect::PowerConsumedD3,
        4 => DataSelect::PowerDissipatedD0,
        5 => DataSelect::PowerDissipatedD1,
        6 => DataSelect::PowerDissipatedD2,
        7 => DataSelect::PowerDissipatedD3,
        8 => DataSelect::CommonLogic,
        n => DataSelect::Reserved(n),
    }
}

pub fn m_data_scale(v: u8) -> DataScale {
    match v {
        0b00 => DataScale::Unknown,
        0b01 => DataScale::Tenth,
        0b10 => DataScale::Hundredth,
        0b11 => DataScale::Thousandth,
        _ => unreachable!(),
    }
}


pub fn expect(d: &[u8]) -> Option<PowerManagementInterface> {
    if d.len() < 6 { return None; }
    let (cap, ctl, br) = (u16at(d, 0), u16at(d, 2), d[4]);
    Some(PowerManagementInterface {
        capabilities: Capabilities {
            version: f8(cap, 0, 2),
            pme_clock: bit(cap, 3),
            immediate_readiness_on_return_to_d0: bit(cap, 4),
            device_specific_initialization: bit(cap, 5),
            aux_current: m_aux_current(f8(cap, 6, 8)),
            d1_support: bit(cap, 9),
            d2_support: bit(cap, 10),
            pme_support: PmeSupport {
                d0: bit(cap, 11),
                d1: bit(cap, 12),
                d2: bit(cap, 13),
                d3_hot: bit(cap, 14),
                d3_cold: bit(cap, 15),
            },
        },
        control: Control {
            power_state: m_power_state(f8(ctl, 0, 1)),
            no_soft_reset: bit(ctl, 3),
            pme_enabled: bit(ctl, 8),
            data_select: m_data_select(f8(ctl, 9, 12)),
            data_scale: m_data_scale(f8(ctl, 13, 14)),
            pme_status: bit(ctl, 15),
        },
        bridge: Bridge { reserved: f8(br, 0, 5), b2_b3: bit(br, 6), bpcc_enabled: bit(br, 7) },
        data: d[5],
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = PowerManagementInterface::try_from(d);
    if let Ok(pm) = &r {
        let ctl = u16at(d, 2);
        let want = (d[5] != 0).then(|| Data {
            value: d[5],
            select: m_data_select(f8(ctl, 9, 12)),
            scale: m_data_scale(f8(ctl, 13, 14)),
        });
        same(&want, &pm.data())?;
    }
    cmp(r, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = PowerManagementInterface::try_from(d);
    sink(&r);
    if let Ok(pm) = r { sink(&pm.data()); }
}

}

pub mod sata {
use crate::*;
use pcics::capabilities::sata::*;
pub fn m_bar_location(v: u8) -> BarLocation {
    match v {
        0b0100 => BarLocation::Bar0,
        0b0101 => BarLocation::Bar1,
        0b0110 => BarLocation::Bar2,
        0b0111 => BarLocation::Bar3,
        0b1000 => BarLocation::Bar4,
        0b1001 => BarLocation::Bar5,
        0b1111 => BarLocation::SataCapability1,
        n => BarLocation::Reserved(n),
    }
}


pub fn expect(d: &[u8]) -> Option<Sata> {
    if d.len() < 6 { return None; }
    let v = u32at(d, 2);
    Some(Sata {
        revision: Revision { minor: f8(d[0], 0, 3), major: f8(d[0], 4, 7) },
        bar_location: m_bar_location(f8(v, 0, 3)),
        bar_offset: BarOffset(f32(v, 4, 23)),
    })
}
pub fn check(d: &[u8]) -> Verdict { 
    let r = Sata::try_from(d);
    if let Ok(s) = &r { same(&(f32(u32at(d, 2), 4, 23) * 4), &s.bar_offset.value())?; }
    cmp(r, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = Sata::try_from(d);
    sink(&r);
    if let Ok(s) = r { sink(&s.bar_offset.value()); }
}

}

pub mod slot {
use crate::*;
use pcics::capabilities::slot_identification::*;


pub fn expect(d: &[u8]) -> Option<SlotIdentification> {
    if d.len() < 2 { return None; }
    Some(SlotIdentification {
        expansion_slot: ExpansionSlot { expansion_slots_provided: f8(d[0], 0, 4), first_in_chassis: bit(d[0], 5) },
        chassis_number: d[1],
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(SlotIdentification::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&SlotIdentification::try_from(d)); }

}

pub mod vpd {
use crate::*;
use pcics::capabilities::vital_product_data::*;


pub fn expect(d: &[u8]) -> Option<VitalProductData> {
    if d.len() < 6 { return None; }
    let v = u16at(d, 0);
    Some(VitalProductData {
        vpd_address: f16(v, 0, 14),
        transfer_completed: bit(v, 15),
        vpd_data: u32at(d, 2),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(VitalProductData::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&VitalProductData::try_from(d)); }

}

pub mod fpb {
use crate::*;
use pcics::capabilities::flattening_portal_bridge::*;


pub fn m_fpb_capabilities(v: u32) -> FpbCapabilities {
FpbCapabilities {
fpb_rid_decode_mechanism_supported: bit(v, 0),
fpb_mem_low_decode_mechanism_supported: bit(v, 1),
fpb_mem_high_decode_mechanism_supported: bit(v, 2),
fpb_num_sec_dev: f8(v, 3, 7),
fpb_rid_vector_size_supported: m_fpb_rid_vector_size_supported(f8(v, 8, 10)),
fpb_mem_low_vector_size_supported: m_fpb_mem_low_vector_size_supported(f8(v, 16, 18)),
fpb_mem_high_vector_size_supported: m_fpb_mem_high_vector_size_supported(f8(v, 24, 26)),
}
}

pub fn m_fpb_rid_vector_size_supported(v: u8) -> FpbRidVectorSizeSupported {
match v {
            0b000 => FpbRidVectorSizeSupported::Size256bits,
            0b010 => FpbRidVectorSizeSupported::Size1Kbits,
            0b101 => FpbRidVectorSizeSupported::Size8kbits,
            n => FpbRidVectorSizeSupported::Reserved(n),
        }
}

pub fn m_fpb_mem_low_vector_size_supported(v: u8) -> FpbMemLowVectorSizeSupported {
match v {
            0b000 => FpbMemLowVectorSizeSupported::Size256bits,
            0b001 => FpbMemLowVectorSizeSupported::Size512bits,
            0b010 => FpbMemLowVectorSizeSupported::Size1Kbits,
            0b011 => FpbMemLowVectorSizeSupported::Size2Kbits,
            0b100 => FpbMemLowVectorSizeSupported::Size4Kbits,
            n => FpbMemLowVectorSizeSupported::Reserved(n),
        }
}

pub fn m_fpb_mem_high_vector_size_supported(v: u8) -> FpbMemHighVectorSizeSupported {
match v {
            0b000 => FpbMemHighVectorSizeSupported::Size256bits,
            0b001 => FpbMemHighVectorSizeSupported::Size512bits,
            0b010 => FpbMemHighVectorSizeSupported::Size1Kbits,
            0b011 => FpbMemHighVectorSizeSupported::Size2Kbits,
            0b100 => FpbMemHighVectorSizeSupported::Size4Kbits,
            0b101 => FpbMemHighVectorSizeSupported::Size8Kbits,
            n => FpbMemHighVectorSizeSupported::Reserved(n),
        }
}

pub fn m_fpb_rid_vector_granularity(v: u8) -> FpbRidVectorGranularity {
match v {
            0b0000 => FpbRidVectorGranularity::Granularity8RIDs,
            0b0011 => FpbRidVectorGranularity::Granularity64RIDs,
            0b0101 => FpbRidVectorGranularity::Granularity256RIDs,
            n => FpbRidVectorGranularity::Reserved(n),
        }
}

pub fn m_fpb_mem_low_vector_control(v: u32) -> FpbMemLowVectorControl {
FpbMemLowVectorControl {
fpb_mem_low_decode_mechanism_enable: bit(v, 0),
fpb_mem_low_vector_granularity: m_fpb_mem_low_vector_granularity(f8(v, 4, 7)),
fpb_mem_low_vector_start: low_start(v),
}
}

pub fn m_fpb_mem_low_vector_granularity(v: u8) -> FpbMemLowVectorGranularity {
match v {
            0b0000 => FpbMemLowVectorGranularity::Granularity1MB,
            0b0001 => FpbMemLowVectorGranularity::Granularity2MB,
            0b0010 => FpbMemLowVectorGranularity::Granularity4MB,
            0b0011 => FpbMemLowVectorGranularity::Granularity8MB,
            0b0100 => FpbMemLowVectorGranularity::Granularity16MB,
            n => FpbMemLowVectorGranularity::Reserved(n),
        }
}

pub fn m_fpb_mem_high_vector_granularity(v: u8) -> FpbMemHighVectorGranularity {
match v {
            0b0000 => FpbMemHighVectorGranularity::Granularity256MB,
            0b0001 => FpbMemHighVectorGranularity::Granularity512MB,
            0b0010 => FpbMemHighVectorGranularity::Granularity1GB,
            0b0011 => FpbMemHighVectorGranularity::Granularity2GB,
            0b0100 => FpbMemHighVectorGranularity::Granularity4GB,
            0b0101 => FpbMemHighVectorGranularity::Granularity8GB,
            0b0110 => FpbMemHighVectorGranularity::Granularity16GB,
            0b0111 => FpbMemHighVectorGranularity::Granularity32GB,
            n => FpbMemHighVectorGranularity::Reserved(n),
        }
}

pub fn m_fpb_vector_access_control(v: u32) -> FpbVectorAccessControl {
FpbVectorAccessControl {
fpb_vector_access_offset: f8(v, 0, 7),
fpb_vector_select: m_fpb_vector_select(f8(v, 14, 15)),
}
}

pub fn m_fpb_vector_select(v: u8) -> FpbVectorSelect {
match v {
            0b00 => FpbVectorSelect::Rid,
            0b01 => FpbVectorSelect::MemLow,
            0b10 => FpbVectorSelect::MemHigh,
            0b11 => FpbVectorSelect::Reserved,
            _ => unreachable!(),
        }
}


/// Start address: bits below the granularity are ignored
fn drop_low(start: u64, n: u32) -> u64 {
    start >> n << n
}
fn low_start(v: u32) -> u32 {
    drop_low((v & 0xfff0_0000) as u64, 20 + f32(v, 4, 7)) as u32
}
fn high_start(c1: u32, c2: u32) -> u64 {
    drop_low((c2 as u64) << 32 | (c1 & 0xf000_0000) as u64, 28 + f32(c1, 4, 7))
}
fn rid(c1: u32, c2: u32) -> FpbRidVectorControl {
    FpbRidVectorControl {
        fpb_rid_decode_mechanism_enable: bit(c1, 0),
        fpb_rid_vector_granularity: m_fpb_rid_vector_granularity(f8(c1, 4, 7)),
        fpb_rid_vector_start: drop_low((f16(c1, 19, 31) << 3) as u64, 3 + f32(c1, 4, 7)) as u16,
        rid_secondary_start: f16(c2, 3, 15),
    }
}
pub fn expect(d: &[u8]) -> Option<FlatteningPortalBridge> {
    if d.len() < 34 { return None; }
    let (r1, r2, h1, h2) = (u32at(d, 6), u32at(d, 10), u32at(d, 18), u32at(d, 22));
    Some(FlatteningPortalBridge {
        reserved: u16at(d, 0),
        fpb_capabilities: m_fpb_capabilities(u32at(d, 2)),
        fpb_rid_vector_control: rid(r1, r2),
        fpb_mem_low_vector_control: m_fpb_mem_low_vector_control(u32at(d, 14)),
        fpb_mem_high_vector_control: FpbMemHighVectorControl {
            fpb_mem_high_decode_mechanism_enable: bit(h1, 0),
            fpb_mem_high_vector_granularity: m_fpb_mem_high_vector_granularity(f8(h1, 4, 7)),
            fpb_mem_high_vector_start: high_start(h1, h2),
        },
        fpb_vector_access_control: m_fpb_vector_access_control(u32at(d, 26)),
        fpb_vector_access_data: u32at(d, 30),
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = FlatteningPortalBridge::try_from(d);
    let mut e = expect(d);
    if let (Ok(r), Some(e)) = (&r, &mut e) {
        // A reserved granularity wider than the address itself gives no meaning to the start
        if 3 + f32(u32at(d, 6), 4, 7) >= 16 {
            e.fpb_rid_vector_control.fpb_rid_vector_start = r.fpb_rid_vector_control.fpb_rid_vector_start;
        }
        if 20 + f32(u32at(d, 14), 4, 7) >= 32 {
            e.fpb_mem_low_vector_control.fpb_mem_low_vector_start = r.fpb_mem_low_vector_control.fpb_mem_low_vector_start;
        }
    }
    cmp(r, e)
}
pub fn walk(d: &[u8]) { sink(&FlatteningPortalBridge::try_from(d)); }

}

pub mod vendor {
use crate::*;
use pcics::capabilities::vendor_specific::*;


use pcics::header::Header;
pub fn expect<'a>(d: &'a [u8], header: &Header) -> Result<VendorSpecific<'a>, VendorSpecificError> {
    use VendorSpecificError as E;
    if d.is_empty() { return Err(E::LengthUnreadable); }
    // length counts ID, next pointer and itself
    let len = d[0] as usize;
    if len < 2 { return Err(E::Length { val: d[0] }); }
    if len == 2 || d.len() < len - 2 { return Err(E::Data { size: len - 2 }); }
    let body = &d[1..len - 2];
    if !(header.vendor_id == 0x1af4 && header.device_id >= 0x1000 && header.device_id <= 0x107f) {
        return Ok(VendorSpecific::Unspecified(body));
    }
    if body.len() < 13 { return Err(E::Virtio); }
    let (bar, offset, size) = (body[1], u32at(body, 5), u32at(body, 9));
    Ok(VendorSpecific::Virtio(match body[0] {
        1 => Virtio::CommonCfg { bar, offset, size },
        2 => Virtio::Notify { bar, offset, size, multiplier: (body.len() >= 17).then(|| u32at(body, 13)) },
        3 => Virtio::Isr { bar, offset, size },
        4 => Virtio::DeviceCfg { bar, offset, size },
        _ => Virtio::Unknown { bar, offset, size },
    }))
}
pub fn check(d: &[u8], header: &Header) -> Verdict {
    match (VendorSpecific::try_new(d, header), expect(d, header)) {
        // A length of two leaves no room for the length byte itself: any error will do
        (Err(_), Err(VendorSpecificError::Data { size: 0 })) => Ok("error"),
        (real, model) => cmp_err(real, model),
    }
}
pub fn walk(d: &[u8], header: &Header) { sink(&VendorSpecific::try_new(d, header)); }

}

