//! Reference decoders of extended capabilities: I/O virtualization, power and link management,
//! designated vendor-specific. `d` starts after the capability header unless the function says it
//! starts at the header.

pub mod acs {
use crate::*;
use pcics::extended_capabilities::access_control_services::*;

pub fn m_acs_capability(v: u16) -> AcsCapability {
    AcsCapability {
        acs_source_validation: bit(v, 0),
        acs_translation_blocking: bit(v, 1),
        acs_p2p_request_redirect: bit(v, 2),
        acs_p2p_completion_redirect: bit(v, 3),
        acs_upstream_forwarding: bit(v, 4),
        acs_p2p_egress_control: bit(v, 5),
        acs_direct_translated_p2p: bit(v, 6),
        egress_control_vector_size: f8(v, 8, 15),
    }
}

pub fn m_acs_control(v: u16) -> AcsControl {
    AcsControl {
        acs_source_validation_enable: bit(v, 0),
        acs_translation_blocking_enable: bit(v, 1),
        acs_p2p_request_redirect_enable: bit(v, 2),
        acs_p2p_completion_redirect_enable: bit(v, 3),
        acs_upstream_forwarding_enable: bit(v, 4),
        acs_p2p_egress_control_enable: bit(v, 5),
        acs_direct_translated_p2p_enable: bit(v, 6),
    }
}

/// One flag per port, least significant bit first, from as many dwords as the size needs
pub fn vector(d: &[u8]) -> Vec<bool> {
    // size 00h stands for 256 where there is a vector (P2P Egress Control)
    let size = if d[1] == 0 && bit(d[0], 5) { 256 } else { d[1] as usize };
    let dwords = (size + 31) / 32;
    if d.len() < 4 + 4 * dwords { return vec![]; }
    (0..size).map(|i| bit(d[4 + i / 8], (i % 8) as u32)).collect()
}
pub fn check(d: &[u8]) -> Verdict {
    match AccessControlServices::try_from(d) {
        Err(_) if d.len() < 4 => Ok("error"),
        Ok(r) if d.len() >= 4 => {
            same(&m_acs_capability(u16at(d, 0)), &r.acs_capability)?;
            same(&m_acs_control(u16at(d, 2)), &r.acs_control)?;
            let bits = super::super::ext1::vc::all(r.egress_control_vectors(), 300)?;
            same(&vector(d), &bits)?;
            Ok(if bits.is_empty() { "decoded" } else { "decoded with egress vector" })
        }
        r => Err(format!("{} bytes: {r:?}", d.len())),
    }
}
pub fn walk(d: &[u8]) {
    let r = AccessControlServices::try_from(d);
    sink(&r);
    if let Ok(r) = &r { sink(&r.egress_control_vectors().take(300).count()); }
}
}

pub mod ari {
use crate::*;
use pcics::extended_capabilities::alternative_routing_id_interpolation::*;

pub fn m_ari_capability(v: u16) -> AriCapability {
    AriCapability {
        mfvc_function_groups_capability: bit(v, 0),
        acs_function_groups_capability: bit(v, 1),
        next_function_number: f8(v, 8, 15),
    }
}

pub fn m_ari_control(v: u16) -> AriControl {
    AriControl {
        mfvc_function_groups_enable: bit(v, 0),
        acs_function_groups_enable: bit(v, 1),
        function_group: f8(v, 4, 6),
    }
}

pub const SIZE: usize = 4;
pub fn expect(d: &[u8]) -> Option<AlternativeRoutingIdInterpretation> {
    (d.len() >= SIZE).then(|| AlternativeRoutingIdInterpretation {
            ari_capability: m_ari_capability(u16at(d, 0)),
            ari_control: m_ari_control(u16at(d, 2)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(AlternativeRoutingIdInterpretation::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&AlternativeRoutingIdInterpretation::try_from(d)); }
}

pub mod ats {
use crate::*;
use pcics::extended_capabilities::address_translation_services::*;

pub fn m_ats_capability(v: u16) -> AtsCapability {
    AtsCapability {
        invalidate_queue_depth: f8(v, 0, 4),
        page_aligned_request: bit(v, 5),
        global_invalidate_supported: bit(v, 6),
    }
}

pub fn m_ats_control(v: u16) -> AtsControl {
    AtsControl {
        smallest_translation_unit: f8(v, 0, 4),
        enable: bit(v, 15),
    }
}

pub const SIZE: usize = 4;
pub fn expect(d: &[u8]) -> Option<AddressTranslationServices> {
    (d.len() >= SIZE).then(|| AddressTranslationServices {
            ats_capability: m_ats_capability(u16at(d, 0)),
            ats_control: m_ats_control(u16at(d, 2)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(AddressTranslationServices::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&AddressTranslationServices::try_from(d)); }
}

pub mod sriov {
use crate::*;
use pcics::extended_capabilities::single_root_io_virtualization::*;

pub fn m_sriov_capabilities(v: u32) -> SriovCapabilities {
    SriovCapabilities {
        vf_migration_capable: bit(v, 0),
        ari_capable_hierarchy_preserved: bit(v, 1),
        vf_10bit_tag_requester_supported: bit(v, 2),
        vf_migration_interrupt_message_number: f16(v, 21, 31),
    }
}

pub fn m_sriov_control(v: u16) -> SriovControl {
    SriovControl {
        vf_enable: bit(v, 0),
        vf_migration_enable: bit(v, 1),
        vf_migration_interrupt_enable: bit(v, 2),
        vf_mse: bit(v, 3),
        ari_capable_hierarchy: bit(v, 4),
        vf_10bit_tag_requester_enable: bit(v, 5),
    }
}

pub fn m_sriov_status(v: u16) -> SriovStatus {
    SriovStatus {
        vf_migration_status: bit(v, 0),
    }
}

use pcics::header::BaseAddresses;
/// Offsets: specification less the 4-byte header
pub fn expect(d: &[u8]) -> Option<SingleRootIoVirtualization> {
    (d.len() >= 0x3c).then(|| SingleRootIoVirtualization {
        sriov_capabilities: m_sriov_capabilities(u32at(d, 0x00)),
        sriov_control: m_sriov_control(u16at(d, 0x04)),
        sriov_status: m_sriov_status(u16at(d, 0x06)),
        initial_vfs: u16at(d, 0x08),
        total_vfs: u16at(d, 0x0a),
        num_vfs: u16at(d, 0x0c),
        function_dependency_link: u8at(d, 0x0e),
        first_vf_offset: u16at(d, 0x10),
        vf_stride: u16at(d, 0x12),
        vf_device_id: u16at(d, 0x16),
        page_sizes: PageSizes { supported: u32at(d, 0x18), system: u32at(d, 0x1c) },
        base_addresses: BaseAddresses::new(super::super::header::header::regs(d, 0x20)),
        vf_migration_state_array_offset: u32at(d, 0x38),
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = SingleRootIoVirtualization::try_from(d);
    if let Ok(r) = &r {
        super::super::header::header::same_bars(&r.base_addresses, super::super::header::header::regs(d, 0x20))?;
    }
    cmp(r, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = SingleRootIoVirtualization::try_from(d);
    sink(&r);
    if let Ok(r) = &r { sink(&r.base_addresses.clone().take(8).collect::<Vec<_>>()); }
}
}

pub mod multicast {
use crate::*;
use pcics::extended_capabilities::multicast::*;

pub fn m_multicast_capability(v: u16) -> MulticastCapability {
MulticastCapability {
mc_max_group: f8(v, 0, 5),
mc_window_size_requested: f8(v, 8, 13),
mc_ecrc_regeneration_supported: bit(v, 15),
}
}

pub fn m_multicast_control(v: u16) -> MulticastControl {
MulticastControl {
mc_num_group: f8(v, 0, 5),
mc_enable: bit(v, 15),
}
}

/// `d` starts at the capability header
pub fn expect(d: &[u8]) -> Option<Multicast> {
    (d.len() >= 0x28).then(|| Multicast {
        multicast_capability: m_multicast_capability(u16at(d, 4)),
        multicast_control: m_multicast_control(u16at(d, 6)),
        mc_base_address: McBaseAddress {
            mc_index_position: f8(u64at(d, 8), 0, 5),
            mc_base_address: u64at(d, 8) & !0xfff,
        },
        mc_receive: u64at(d, 0x10),
        mc_block_all: u64at(d, 0x18),
        mc_block_untranslated: u64at(d, 0x20),
        mc_overlay_bar: (d.len() >= 0x30).then(|| McOverlayBar {
            mc_overlay_size: f8(u64at(d, 0x28), 0, 5),
            mc_overlay_bar: u64at(d, 0x28) & !0x3f,
        }),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(Multicast::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&Multicast::try_from(d)); }
}

pub mod pri {
use crate::*;
use pcics::extended_capabilities::page_request_interface::*;



pub const SIZE: usize = 12;
pub fn expect(d: &[u8]) -> Option<PageRequestInterface> {
    (d.len() >= SIZE).then(|| PageRequestInterface {
            page_request_control: PageRequestControl { enable: bit(u16at(d, 0), 0), reset: bit(u16at(d, 0), 1) },
            page_request_status: PageRequestStatus { response_failure: bit(u16at(d, 2), 0), unexpected_page_request_group_index: bit(u16at(d, 2), 1), stopped: bit(u16at(d, 2), 8), prg_response_pasid_required: bit(u16at(d, 2), 15) },
            outstanding_page_request_capacity: u32at(d, 4),
            outstanding_page_request_allocation: u32at(d, 8),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(PageRequestInterface::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&PageRequestInterface::try_from(d)); }
}

pub mod rebar {
use crate::*;
use pcics::extended_capabilities::resizable_bar::*;

pub fn m_resizable_bar_capability(v: u32) -> ResizableBarCapability {
    ResizableBarCapability {
        support_map_from_1mb_to_128tb: v,
    }
}

pub fn m_resizable_bar_control(v: u32) -> ResizableBarControl {
    ResizableBarControl {
        bar_index: f8(v, 0, 2),
        number_of_resizable_bars: f8(v, 5, 7),
        bar_size: f8(v, 8, 13),
        support_map_from_256tb_to_8eb: f16(v, 16, 31),
    }
}

/// `d` starts at the capability header
pub fn expect(d: &[u8]) -> Result<Vec<ResizableBarEntry>, ResizableBarError> {
    if d.len() < 12 { return Err(ResizableBarError::FirstEntry); }
    let n = f8(u32at(d, 8), 5, 7) as usize;
    if n == 0 || n > 6 { return Err(ResizableBarError::NumberOfResizableBars { value: n }); }
    if d.len() < 4 + 8 * n { return Err(ResizableBarError::ShortData); }
    Ok((0..n).map(|i| ResizableBarEntry {
        capability: m_resizable_bar_capability(u32at(d, 4 + 8 * i)),
        control: m_resizable_bar_control(u32at(d, 8 + 8 * i)),
    }).collect())
}
/// Size 2^p bytes, p from 20 (1 MB): capability bit 4 is 1 MB, control bit 16 is 256 TB
pub fn supports(e: &ResizableBarEntry, p: usize) -> bool {
    match p {
        20..=47 => bit(e.capability.support_map_from_1mb_to_128tb, p as u32 - 16),
        48..=63 => bit(e.control.support_map_from_256tb_to_8eb, p as u32 - 48),
        _ => false,
    }
}
pub fn check(d: &[u8]) -> Verdict {
    let real = ResizableBar::try_from(d).map(|r| super::super::ext1::vc::all(r, 20));
    let model = expect(d);
    match (real, model) {
        (Ok(a), Ok(b)) => {
            let a = a?;
            same(&b, &a)?;
            for e in &a {
                for p in (0..72).chain([255, 256 + 20, 1 << 32, usize::MAX]) {
                    if e.is_function_supports_power_of_two(p) != supports(e, p) {
                        return Err(format!("2^{p} bytes: {e:?}"));
                    }
                }
            }
            Ok("decoded")
        }
        (Err(a), Err(b)) if a == b => Ok("error"),
        (a, b) => Err(format!("real {a:?} model {b:?}")),
    }
}
pub fn walk(d: &[u8]) {
    let r = ResizableBar::try_from(d);
    sink(&r);
    if let Ok(r) = r {
        for e in r.take(20) {
            for p in (0..72).chain([255, 256 + 20, usize::MAX]) { sink(&e.is_function_supports_power_of_two(p)); }
        }
    }
}
}

pub mod tph {
use crate::*;
use pcics::extended_capabilities::tph_requester::*;

pub fn m_tph_requester_control(v: u32) -> TphRequesterControl {
    TphRequesterControl {
        st_mode_select: m_st_mode_select(f8(v, 0, 2)),
        tph_requester_enable: m_tph_requester_enable(f8(v, 8, 9)),
    }
}

pub fn m_st_mode_select(v: u8) -> StModeSelect {
    match v {
        0b00 => StModeSelect::NoStMode,
        0b01 => StModeSelect::InterruptVectorMode,
        0b10 => StModeSelect::DeviceSpecificMode,
        n => StModeSelect::Reserved(n),
    }
}

pub fn m_tph_requester_enable(v: u8) -> TphRequesterEnable {
    match v {
        0b00 => TphRequesterEnable::NotPermitted,
        0b01 => TphRequesterEnable::TphPermitted,
        0b10 => TphRequesterEnable::Reserved,
        0b11 => TphRequesterEnable::TphAndExtendedTphPermitted,
        _ => unreachable!(),
    }
}

pub fn expect(d: &[u8]) -> Option<TphRequester<'_>> {
    if d.len() < 8 { return None; }
    let v = u32at(d, 0);
    let size = f16(v, 16, 26);
    let bytes = (size as usize + 1) * 2;
    let rest = &d[8..];
    Some(TphRequester {
        tph_requester_capability: TphRequesterCapability {
            no_st_mode_supported: bit(v, 0),
            interrupt_vector_mode_supported: bit(v, 1),
            device_specific_mode_supported: bit(v, 2),
            extended_tph_requester_supported: bit(v, 8),
            st_table: match f8(v, 9, 10) {
                0 => StTable::NotPresent,
                1 if size < 64 && rest.len() >= bytes => StTable::Valid { size, data: &rest[..bytes] },
                1 => StTable::Invalid { size, data: rest },
                2 => StTable::MsiXTable { size },
                _ => StTable::Reserved,
            },
        },
        tph_requester_control: m_tph_requester_control(u32at(d, 4)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(TphRequester::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&TphRequester::try_from(d)); }
}

pub mod pasid {
use crate::*;
use pcics::extended_capabilities::process_address_space_id::*;

pub fn m_pacid_capability(v: u16) -> PacidCapability {
    PacidCapability {
        execute_permission_supported: bit(v, 1),
        privileged_mode_supported: bit(v, 2),
        max_pasid_width: f8(v, 8, 12),
    }
}

pub fn m_pacid_control(v: u16) -> PacidControl {
    PacidControl {
        pasid_enable: bit(v, 0),
        execute_permission_enable: bit(v, 1),
        privileged_mode_enable: bit(v, 2),
    }
}

pub const SIZE: usize = 4;
pub fn expect(d: &[u8]) -> Option<ProcessAddressSpaceId> {
    (d.len() >= SIZE).then(|| ProcessAddressSpaceId {
            pacid_capability: m_pacid_capability(u16at(d, 0)),
            pacid_control: m_pacid_control(u16at(d, 2)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(ProcessAddressSpaceId::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&ProcessAddressSpaceId::try_from(d)); }
}

pub mod dpa {
use crate::*;
use pcics::extended_capabilities::dynamic_power_allocation::*;

pub fn m_dpa_capability(v: u32) -> DpaCapability {
    DpaCapability {
        substate_max: f8(v, 0, 4),
        transition_latency_unit: m_transition_latency_unit(f8(v, 8, 9)),
        power_allocation_scale: m_power_allocation_scale(f8(v, 12, 13)),
        transition_latency_value_0: f8(v, 16, 23),
        transition_latency_value_1: f8(v, 24, 31),
    }
}

pub fn m_transition_latency_unit(v: u8) -> TransitionLatencyUnit {
    match v {
        0b00 => TransitionLatencyUnit::Unit1ms,
        0b01 => TransitionLatencyUnit::Unit10ms,
        0b10 => TransitionLatencyUnit::Unit100ms,
        0b11 => TransitionLatencyUnit::Reserved,
        _ => unreachable!(),
    }
}

pub fn m_power_allocation_scale(v: u8) -> PowerAllocationScale {
    match v {
        0b00 => PowerAllocationScale::Mul10,
        0b01 => PowerAllocationScale::Mul1_0,
        0b10 => PowerAllocationScale::Mul0_1,
        0b11 => PowerAllocationScale::Mul0_01,
        _ => unreachable!(),
    }
}

pub fn m_dpa_status(v: u16) -> DpaStatus {
    DpaStatus {
        substate_status: f8(v, 0, 4),
        substate_control_enabled: bit(v, 8),
    }
}

pub fn m_dpa_control(v: u16) -> DpaControl {
    DpaControl {
        substate_control: f8(v, 0, 4),
    }
}

/// `d` starts at the capability header
pub fn expect(d: &[u8]) -> Result<DynamicPowerAllocation<'_>, DynamicPowerAllocationError> {
    if d.len() < 16 { return Err(DynamicPowerAllocationError::Mandatory); }
    let substates = f8(u32at(d, 4), 0, 4) as usize + 1;
    if d.len() < 16 + substates {
        return Err(DynamicPowerAllocationError::DpaAllocationArray { expected: substates, found: d.len() - 16 });
    }
    Ok(DynamicPowerAllocation {
        dpa_capability: m_dpa_capability(u32at(d, 4)),
        dpa_latency_indicator: u32at(d, 8),
        dpa_status: m_dpa_status(u16at(d, 12)),
        dpa_control: m_dpa_control(u16at(d, 14)),
        dpa_power_allocation_array: DpaPowerAllocationArray(&d[16..16 + substates]),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp_err(DynamicPowerAllocation::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&DynamicPowerAllocation::try_from(d)); }
}

pub mod ltr {
use crate::*;
use pcics::extended_capabilities::latency_tolerance_reporting::*;

pub fn m_max_latency(v: u16) -> MaxLatency {
    MaxLatency {
        value: f16(v, 0, 9),
        scale: f8(v, 10, 12),
    }
}

/// Latency in ns: scales 0..=5 are 32^scale ns, others are not permitted
pub fn ns(l: &MaxLatency) -> usize {
    [1, 32, 1024, 32768, 1048576, 33554432, 0, 0][l.scale as usize] * l.value as usize
}
pub fn expect(d: &[u8]) -> Option<LatencyToleranceReporting> {
    (d.len() >= 4).then(|| LatencyToleranceReporting {
        max_snoop_latency: m_max_latency(u16at(d, 0)),
        max_no_snoop_latency: m_max_latency(u16at(d, 2)),
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = LatencyToleranceReporting::try_from(d);
    if let Ok(r) = &r {
        for l in [&r.max_snoop_latency, &r.max_no_snoop_latency] {
            if l.scale < 8 && l.value() != ns(l) { return Err(format!("{l:?}.value() = {}", l.value())); }
        }
    }
    cmp(r, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = LatencyToleranceReporting::try_from(d);
    if let Ok(r) = &r { sink(&(r.max_snoop_latency.value(), r.max_no_snoop_latency.value())); }
    sink(&r);
}
}

pub mod l1pm {
use crate::*;
use pcics::extended_capabilities::l1_pm_substates::*;

pub fn m_port_tpower_on_scale(v: u8) -> PortTPowerOnScale {
    match v {
        0b00 => PortTPowerOnScale::Time2us,
        0b01 => PortTPowerOnScale::Time10us,
        0b10 => PortTPowerOnScale::Time100us,
        _ => PortTPowerOnScale::Reserved,
    }
}

pub fn power_on(value: u8, scale: u8) -> PortTPowerOn {
    PortTPowerOn { value, scale: m_port_tpower_on_scale(scale) }
}
pub fn microseconds(value: u8, scale: u8) -> Option<usize> {
    [Some(2), Some(10), Some(100), None][scale as usize].map(|s| s * value as usize)
}
pub fn expect(d: &[u8]) -> Option<L1PmSubstates> {
    if d.len() < 12 { return None; }
    let (cap, c1, c2) = (u32at(d, 0), u32at(d, 4), u32at(d, 8));
    Some(L1PmSubstates {
        l1_pm_substates_capabilities: L1PmSubstatesCapabilities {
            pci_pm_l1_2_supported: bit(cap, 0),
            pci_pm_l1_1_supported: bit(cap, 1),
            aspm_l1_2_supported: bit(cap, 2),
            aspm_l1_1_supported: bit(cap, 3),
            l1_pm_substates_supported: bit(cap, 4),
            port_common_mode_restore_time: f8(cap, 8, 15),
            port_t_power_on: power_on(f8(cap, 19, 23), f8(cap, 16, 17)),
        },
        l1_pm_substates_control_1: L1PmSubstatesControl1 {
            pci_pm_l1_2_enable: bit(c1, 0),
            pci_pm_l1_1_enable: bit(c1, 1),
            aspm_l1_2_enable: bit(c1, 2),
            aspm_l1_1_enable: bit(c1, 3),
            common_mode_restore_time: f8(c1, 8, 15),
            ltr_l1_2_threshold: MaxLatency { value: f16(c1, 16, 25), scale: f8(c1, 29, 31) },
        },
        l1_pm_substates_control_2: L1PmSubstatesControl2 { t_power_on: power_on(f8(c2, 3, 7), f8(c2, 0, 1)) },
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = L1PmSubstates::try_from(d);
    if let (Ok(r), true) = (&r, d.len() >= 12) {
        let (cap, c1, c2) = (u32at(d, 0), u32at(d, 4), u32at(d, 8));
        same(&microseconds(f8(cap, 19, 23), f8(cap, 16, 17)), &r.l1_pm_substates_capabilities.port_t_power_on.value())?;
        same(&microseconds(f8(c2, 3, 7), f8(c2, 0, 1)), &r.l1_pm_substates_control_2.t_power_on.value())?;
        let t = &r.l1_pm_substates_control_1.ltr_l1_2_threshold;
        same(&super::ltr::ns(t), &t.value())?;
    }
    cmp(r, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = L1PmSubstates::try_from(d);
    if let Ok(r) = &r {
        sink(&(r.l1_pm_substates_capabilities.port_t_power_on.value(), r.l1_pm_substates_control_1.ltr_l1_2_threshold.value(), r.l1_pm_substates_control_2.t_power_on.value()));
        sink(&(u32::from(r.l1_pm_substates_capabilities.clone()), u32::from(r.l1_pm_substates_control_1.clone()), u32::from(r.l1_pm_substates_control_2.clone())));
    }
    sink(&r);
}
}

pub mod ptm {
use crate::*;
use pcics::extended_capabilities::precision_time_measurement::*;

pub fn m_ptm_capability(v: u32) -> PtmCapability {
    PtmCapability {
        ptm_requester_capable: bit(v, 0),
        ptm_responder_capable: bit(v, 1),
        ptm_root_capable: bit(v, 2),
        local_clock_granularity: f8(v, 8, 15),
    }
}

pub fn m_ptm_control(v: u32) -> PtmControl {
    PtmControl {
        ptm_enable: bit(v, 0),
        root_select: bit(v, 1),
        effective_granularity: f8(v, 8, 15),
    }
}

pub const SIZE: usize = 8;
pub fn expect(d: &[u8]) -> Option<PrecisionTimeMeasurement> {
    (d.len() >= SIZE).then(|| PrecisionTimeMeasurement {
            ptm_capability: m_ptm_capability(u32at(d, 0)),
            ptm_control: m_ptm_control(u32at(d, 4)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(PrecisionTimeMeasurement::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&PrecisionTimeMeasurement::try_from(d)); }
}

pub mod secondary {
use crate::*;
use pcics::extended_capabilities::secondary_pci_express::*;

pub fn m_link_control3(v: u32) -> LinkControl3 {
    LinkControl3 {
        perform_equalization: bit(v, 0),
        link_equalization_request_interrupt_enable: bit(v, 1),
        lower_skp_os_generation_vector: SupportedLinkSpeedsVector {
            speed_2_5_gtps: bit(v, 9),
            speed_5_0_gtps: bit(v, 10),
            speed_8_0_gtps: bit(v, 11),
            speed_16_0_gtps: bit(v, 12),
            speed_32_0_gtps: bit(v, 13),
            speed_64_0_gtps: bit(v, 14),
            reserved: bit(v, 15),
        },
    }
}

pub fn m_lane_equalization_control(v: u16) -> LaneEqualizationControl {
    LaneEqualizationControl {
        downstream_port_transmitter_preset: m_transmitter_preset(f8(v, 0, 3)),
        downstream_port_receiver_preset_hint: m_receiver_preset_hint(f8(v, 4, 6)),
        upstream_port_transmitter_preset: m_transmitter_preset(f8(v, 8, 11)),
        upstream_port_receiver_preset_hint: m_receiver_preset_hint(f8(v, 12, 14)),
    }
}

use pcics::capabilities::pci_express::{LinkWidth, SupportedLinkSpeedsVector};
use super::super::caps2::pci_express::{m_receiver_preset_hint, m_transmitter_preset};
pub fn check(d: &[u8]) -> Verdict {
    match SecondaryPciExpress::try_from(d) {
        Err(_) if d.len() < 8 => Ok("error"),
        Ok(r) if d.len() >= 8 => {
            same(&m_link_control3(u32at(d, 0)), &r.link_control_3)?;
            same(&u32at(d, 4), &r.lane_error_status.0)?;
            // every link width the Maximum Link Width field can hold
            for w in [1u8, 2, 4, 8, 12, 16, 32] {
                let lanes = super::super::ext1::vc::all(r.equalization_control_lanes(LinkWidth::from(w)), 40)?;
                let n = (w as usize).min((d.len() - 8) / 2);
                let want: Vec<_> = (0..n).map(|i| m_lane_equalization_control(u16at(d, 8 + 2 * i))).collect();
                same(&want, &lanes)?;
            }
            Ok("decoded")
        }
        r => Err(format!("{} bytes: {r:?}", d.len())),
    }
}
pub fn walk(d: &[u8]) {
    let r = SecondaryPciExpress::try_from(d);
    sink(&r);
    if let Ok(r) = &r {
        for w in 0..64 { sink(&r.equalization_control_lanes(LinkWidth::from(w)).take(70).count()); }
    }
}
}

pub mod mphy {
use crate::*;
use pcics::extended_capabilities::pci_express_over_m_phy::*;

pub fn m_mpcie_capabilities(v: u32) -> MpcieCapabilities {
MpcieCapabilities {
mpcie_link_speed_capability: m_mpcie_link_speed(f8(v, 0, 1)),
configuration_software_supported: bit(v, 15),
maximum_tx_lane_width_capability: m_lane_width_supported(f8(v, 16, 23)),
maximum_rx_lane_width_capability: m_lane_width_supported(f8(v, 24, 31)),
}
}

pub fn m_mpcie_control(v: u32) -> MpcieControl {
MpcieControl {
mpcie_target_link_speed_control: m_mpcie_link_speed(f8(v, 0, 1)),
}
}

pub fn m_mpcie_status(v: u32) -> MpcieStatus {
MpcieStatus {
mpcie_current_link_speed_status: m_mpcie_link_speed(f8(v, 0, 1)),
mpcie_configuration_software_status: bit(v, 15),
tx_lane_width_status: m_lane_width_status(f8(v, 16, 23)),
rx_lane_width_status: m_lane_width_status(f8(v, 24, 31)),
}
}

pub fn m_mpcie_phy_control_data(v: u32) -> MpciePhyControlData {
MpciePhyControlData {
phy_register_data: f8(v, 0, 7),
phy_control_error: bit(v, 29),
rrap_abort_a: bit(v, 30),
phy_control_pending: bit(v, 31),
}
}

pub fn m_mpcie_link_speed(v: u8) -> MpcieLinkSpeed {
MpcieLinkSpeed {
hs_g1: bit(v, 0),
hs_g2: bit(v, 1),
}
}

pub fn m_lane_width_supported(v: u8) -> LaneWidthSupported {
LaneWidthSupported {
x1: bit(v, 0),
x2: bit(v, 1),
x4: bit(v, 2),
x8: bit(v, 3),
x12: bit(v, 4),
x16: bit(v, 5),
x32: bit(v, 6),
}
}

pub fn m_lane_width_status(v: u8) -> LaneWidthStatus {
match v {
            0b0000_0001 => LaneWidthStatus::X1,
            0b0000_0010 => LaneWidthStatus::X2,
            0b0000_0100 => LaneWidthStatus::X4,
            0b0000_1000 => LaneWidthStatus::X8,
            0b0000_1100 => LaneWidthStatus::X12,
            0b0001_0000 => LaneWidthStatus::X16,
            0b0010_0000 => LaneWidthStatus::X32,
            n => LaneWidthStatus::Reserved(n),
        }
}

pub fn m_phy_location(v: u8) -> PhyLocation {
match v {
            0b000 => PhyLocation::LocalPhy,
            0b001 => PhyLocation::RemotePhy,
            n => PhyLocation::Reserved(n),
        }
}

/// Registers 16..=20 and 24 make the upper address
pub fn address(v: u32) -> MpciePhyControlAddress {
    MpciePhyControlAddress {
        lower_addr: f8(v, 0, 7),
        upper_addr: f8(v, 16, 20) + 32 * f8(v, 24, 24),
        phy_location: m_phy_location(f8(v, 25, 27)),
        read: bit(v, 30),
        config: bit(v, 31),
    }
}
/// `d` starts at the capability header
pub fn expect(d: &[u8]) -> Option<PciExpressOverMphy> {
    (d.len() >= 0x1c).then(|| PciExpressOverMphy {
        mpcie_capabilities: m_mpcie_capabilities(u32at(d, 0x04)),
        mpcie_control: m_mpcie_control(u32at(d, 0x08)),
        mpcie_status: m_mpcie_status(u32at(d, 0x0c)),
        mpcie_lane_error_status: u32at(d, 0x10),
        mpcie_phy_control_address: address(u32at(d, 0x14)),
        mpcie_phy_control_data: m_mpcie_phy_control_data(u32at(d, 0x18)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(PciExpressOverMphy::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&PciExpressOverMphy::try_from(d)); }
}

pub mod pmux {
use crate::*;
use pcics::extended_capabilities::protocol_multiplexing::*;

pub fn m_pmux_capability(v: u32) -> PmuxCapability {
    PmuxCapability {
        pmux_protocol_array_size: f8(v, 0, 5),
        pmux_supported_link_speeds: m_pmux_supported_link_speeds(f8(v, 8, 15)),
    }
}

pub fn m_pmux_supported_link_speeds(v: u8) -> PmuxSupportedLinkSpeeds {
    PmuxSupportedLinkSpeeds {
        speed_2_5_gtps: bit(v, 0),
        speed_5_0_gtps: bit(v, 1),
        speed_8_0_gtps: bit(v, 2),
        speed_16_0_gtps: bit(v, 3),
    }
}

pub fn m_pmux_control(v: u32) -> PmuxControl {
    PmuxControl {
        pmux_channel_0_assignment: f8(v, 0, 5),
        pmux_channel_1_assignment: f8(v, 8, 13),
        pmux_channel_2_assignment: f8(v, 16, 21),
        pmux_channel_3_assignment: f8(v, 24, 29),
    }
}

pub fn m_pmux_status(v: u32) -> PmuxStatus {
    PmuxStatus {
        pmux_channel_0_disabled_link_speed: bit(v, 0),
        pmux_channel_0_disabled_link_width: bit(v, 1),
        pmux_channel_0_disabled_link_protocol_specific: bit(v, 2),
        pmux_channel_1_disabled_link_speed: bit(v, 8),
        pmux_channel_1_disabled_link_width: bit(v, 9),
        pmux_channel_1_disabled_link_protocol_specific: bit(v, 10),
        pmux_channel_2_disabled_link_speed: bit(v, 16),
        pmux_channel_2_disabled_link_width: bit(v, 17),
        pmux_channel_2_disabled_link_protocol_specific: bit(v, 18),
        pmux_channel_3_disabled_link_speed: bit(v, 24),
        pmux_channel_3_disabled_link_width: bit(v, 25),
        pmux_channel_3_disabled_link_protocol_specific: bit(v, 26),
    }
}

/// `d` starts at the capability header
pub fn check(d: &[u8]) -> Verdict {
    use ProtocolMultiplexingError as E;
    let real = ProtocolMultiplexing::try_from(d);
    let n = if d.len() < 16 { 0 } else { f8(u32at(d, 4), 0, 5) as usize };
    let error = if d.len() < 16 {
        Some(E::Mandatory)
    } else if d.len() < 16 + 4 * n {
        Some(E::PmuxProtocolArray { expected: 4 * n, found: d.len() - 16 })
    } else {
        None
    };
    match (real, error) {
        (Err(a), Some(b)) if a == b => Ok("error"),
        (Ok(r), None) => {
            same(&m_pmux_capability(u32at(d, 4)), &r.pmux_capability)?;
            same(&m_pmux_control(u32at(d, 8)), &r.pmux_control)?;
            same(&m_pmux_status(u32at(d, 12)), &r.pmux_status)?;
            let list = super::super::ext1::vc::all(r.pmux_protocol_array.clone(), 80)?;
            let want: Vec<_> = (0..n).map(|i| PmuxProtocolArrayEntry {
                protocol_id: u16at(d, 16 + 4 * i),
                authority_id: u16at(d, 18 + 4 * i),
            }).collect();
            same(&want, &list)?;
            Ok(if n == 0 { "decoded, no protocols" } else { "decoded" })
        }
        (a, b) => Err(format!("real {a:?} model error {b:?}")),
    }
}
pub fn walk(d: &[u8]) {
    let r = ProtocolMultiplexing::try_from(d);
    sink(&r);
    if let Ok(r) = r { sink(&r.pmux_protocol_array.take(80).collect::<Vec<_>>()); }
}
}

pub mod lnr {
use crate::*;
use pcics::extended_capabilities::ln_requester::*;

pub fn m_lnr_capability(v: u16) -> LnrCapability {
    LnrCapability {
        lnr_64_supported: bit(v, 0),
        lnr_128_supported: bit(v, 1),
        lnr_registration_max: f8(v, 8, 12),
    }
}

pub fn m_lnr_control(v: u16) -> LnrControl {
    LnrControl {
        lnr_enable: bit(v, 0),
        lnr_cls: bit(v, 1),
        lnr_registration_limit: f8(v, 8, 12),
    }
}

/// `d` starts at the capability header
pub const SIZE: usize = 8;
pub fn expect(d: &[u8]) -> Option<LnRequester> {
    (d.len() >= SIZE).then(|| LnRequester {
            lnr_capability: m_lnr_capability(u16at(d, 4)),
            lnr_control: m_lnr_control(u16at(d, 6)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(LnRequester::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&LnRequester::try_from(d)); }
}

pub mod frs {
use crate::*;
use pcics::extended_capabilities::frs_queuing::*;

pub fn m_frs_queuing_capability(v: u32) -> FrsQueuingCapability {
    FrsQueuingCapability {
        frs_queue_max_depth: f16(v, 0, 11),
        frs_interrupt_message_number: f8(v, 16, 20),
    }
}

pub fn m_frs_queuing_status(v: u16) -> FrsQueuingStatus {
    FrsQueuingStatus {
        frs_message_received: bit(v, 0),
        frs_message_overflow: bit(v, 1),
    }
}

pub fn m_frs_queuing_control(v: u16) -> FrsQueuingControl {
    FrsQueuingControl {
        frs_interrupt_enable: bit(v, 0),
    }
}

pub fn m_frs_message_queue(v: u32) -> FrsMessageQueue {
    FrsMessageQueue {
        frs_message_queue_function_id: f16(v, 0, 15),
        frs_message_queue_reason: f8(v, 16, 19),
        frs_message_queue_depth: f16(v, 20, 31),
    }
}

/// `d` starts at the capability header
pub const SIZE: usize = 16;
pub fn expect(d: &[u8]) -> Option<FrsQueuing> {
    (d.len() >= SIZE).then(|| FrsQueuing {
            frs_queuing_capability: m_frs_queuing_capability(u32at(d, 4)),
            frs_queuing_status: m_frs_queuing_status(u16at(d, 8)),
            frs_queuing_control: m_frs_queuing_control(u16at(d, 10)),
            frs_message_queue: m_frs_message_queue(u32at(d, 12)),
    })
}
pub fn check(d: &[u8]) -> Verdict { cmp(FrsQueuing::try_from(d), expect(d)) }
pub fn walk(d: &[u8]) { sink(&FrsQueuing::try_from(d)); }
}

pub mod rtr {
use crate::*;
use pcics::extended_capabilities::readiness_time_reporting::*;

pub fn m_readiness_time(v: u16) -> ReadinessTime {
    ReadinessTime {
        value: f16(v, 0, 8),
        scale: f8(v, 9, 11),
    }
}

/// `d` starts at the capability header
pub fn expect(d: &[u8]) -> Option<ReadinessTimeReporting> {
    (d.len() >= 12).then(|| ReadinessTimeReporting {
        reset_time: m_readiness_time(f16(u32at(d, 4), 0, 11)),
        dl_up_time: m_readiness_time(f16(u32at(d, 4), 12, 23)),
        valid: bit(u32at(d, 4), 31),
        flr_time: m_readiness_time(f16(u32at(d, 8), 0, 11)),
        d3hot_to_d0_time: m_readiness_time(f16(u32at(d, 8), 12, 23)),
    })
}
/// value * 32^scale ns
pub fn ns(t: &ReadinessTime) -> u64 { t.value as u64 * 32u64.pow(t.scale as u32) }
pub fn check(d: &[u8]) -> Verdict {
    let r = ReadinessTimeReporting::try_from(d);
    if let Ok(r) = &r {
        for t in [&r.reset_time, &r.dl_up_time, &r.flr_time, &r.d3hot_to_d0_time] {
            if t.actual_time_value() != ns(t) { return Err(format!("{t:?} is {} ns", t.actual_time_value())); }
        }
    }
    cmp(r, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = ReadinessTimeReporting::try_from(d);
    if let Ok(r) = &r {
        sink(&[&r.reset_time, &r.dl_up_time, &r.flr_time, &r.d3hot_to_d0_time].map(|t| t.actual_time_value()));
    }
    sink(&r);
}
}

pub mod cxl {
use crate::*;
use pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::*;

pub fn m_cxl_capability(v: u16) -> CxlCapability {
    CxlCapability {
        cache_capable: bit(v, 0),
        io_capable: bit(v, 1),
        mem_capable: bit(v, 2),
        mem_hwinit_mode: bit(v, 3),
        hdm_count: m_hdm_count(f8(v, 4, 5)), 
        cache_writeback_and_invalidate_capable: bit(v, 6),
        cxl_reset_capable: bit(v, 7),
        cxl_reset_timeout: m_cxl_reset_timeout(f8(v, 8, 10)), 
        cxl_reset_mem_clr_capable: bit(v, 11),
        multiple_logical_device: bit(v, 13),
        viral_capable: bit(v, 14),
        pm_init_completion_reporting_capable: bit(v, 15),
    }
}

pub fn m_hdm_count(v: u8) -> HdmCount {
    match v {
        0b00 => HdmCount::ZeroRanges,
        0b01 => HdmCount::OneHdmRange,
        0b10 => HdmCount::TwoHdmRanges,
        0b11 => HdmCount::Reserved,
        _ => unreachable!(),
    }
}

pub fn m_cxl_reset_timeout(v: u8) -> CxlResetTimeout {
    match v {
        0b000 => CxlResetTimeout::MaxTime10ms,
        0b001 => CxlResetTimeout::MaxTime100ms,
        0b010 => CxlResetTimeout::MaxTime1s,
        0b011 => CxlResetTimeout::MaxTime10s,
        0b100 => CxlResetTimeout::MaxTime100s,
        n => CxlResetTimeout::Reserved(n),
    }
}

pub fn m_cxl_control(v: u16) -> CxlControl {
    CxlControl {
        cache_enable: bit(v, 0),
        io_enable: bit(v, 1),
        mem_enable: bit(v, 2),
        cache_sf_coverage: m_cache_sf_coverage(f8(v, 3, 7)),       
        cache_sf_granularity: m_cache_sf_granularity(f8(v, 8, 10)), 
        cache_clean_eviction: m_cache_clean_eviction(bit(v, 11)), 
        viral_enable: bit(v, 14),
    }
}

pub fn m_cache_sf_coverage(v: u8) -> CacheSfCoverage {
    match v {
        0 => CacheSfCoverage::NoSnoopFilter,
        v @ 1..=31 => CacheSfCoverage::SnoopFilter(1 << (v + 15)),
        _ => unreachable!(),
    }
}

pub fn m_cache_sf_granularity(v: u8) -> CacheSfGranularity {
    match v {
        0b000 => CacheSfGranularity::Tracking64B,
        0b001 => CacheSfGranularity::Tracking128B,
        0b010 => CacheSfGranularity::Tracking256B,
        0b011 => CacheSfGranularity::Tracking512B,
        0b100 => CacheSfGranularity::Tracking1KB,
        0b101 => CacheSfGranularity::Tracking2KB,
        0b110 => CacheSfGranularity::Tracking4KB,
        0b111 => CacheSfGranularity::Reserved,
        _ => unreachable!(),
    }
}

pub fn m_cache_clean_eviction(v: bool) -> CacheCleanEviction {
    if v {
        CacheCleanEviction::NotNeeded
    } else {
        CacheCleanEviction::Needed
    }
}

pub fn m_cxl_status(v: u16) -> CxlStatus {
    CxlStatus {
        viral_status: bit(v, 14),
    }
}

pub fn m_cxl_control2(v: u16) -> CxlControl2 {
    CxlControl2 {
        disable_caching: bit(v, 0),
        initiate_cache_write_back_and_invalidation: bit(v, 1),
        initiate_cxl_reset: bit(v, 2),
        cxl_reset_mem_clr_enable: bit(v, 3),
    }
}

pub fn m_cxl_status2(v: u16) -> CxlStatus2 {
    CxlStatus2 {
        cache_invalid: bit(v, 0),
        cxl_reset_complete: bit(v, 1),
        cxl_reset_error: bit(v, 2),
        power_management_initialization_complete: bit(v, 15),
    }
}

pub fn m_cxl_lock(v: u16) -> CxlLock {
    CxlLock {
        config_lock: bit(v, 0),
    }
}

pub fn m_cxl_capability2(v: u16) -> CxlCapability2 {
    CxlCapability2 {
        cache_size_unit: m_cache_size_unit(f8(v, 0, 3)), 
        cache_size: f8(v, 8, 15),
    }
}

pub fn m_cache_size_unit(v: u8) -> CacheSizeUnit {
    match v {
        0b0000 => CacheSizeUnit::NotReported,
        0b0001 => CacheSizeUnit::Unit64K,
        0b0010 => CacheSizeUnit::Unit1MB,
        n => CacheSizeUnit::Reserved(n),
    }
}

pub fn m_media_type(v: u8) -> MediaType {
    match v {
        0b000 => MediaType::Volatile,
        0b001 => MediaType::NonVolatile,
        0b010 => MediaType::Cdat,
        n => MediaType::Reserved(n),
    }
}

pub fn m_memory_class(v: u8) -> MemoryClass {
    match v {
        0b000 => MemoryClass::Memory,
        0b001 => MemoryClass::Storage,
        0b010 => MemoryClass::Cdat,
        n => MemoryClass::Reserved(n),
    }
}

pub fn m_desired_interleave(v: u8) -> DesiredInterleave {
    match v {
        0b00000 => DesiredInterleave::NoInterleave,
        0b00001 => DesiredInterleave::Granularity256B,
        0b00010 => DesiredInterleave::Granularity4KB,
        0b00011 => DesiredInterleave::Granularity512B,
        0b00100 => DesiredInterleave::Granularity1KB,
        0b00101 => DesiredInterleave::Granularity2KB,
        0b00110 => DesiredInterleave::Granularity8KB,
        0b00111 => DesiredInterleave::Granularity16KB,
        n => DesiredInterleave::Reserved(n),
    }
}

pub fn m_memory_active_timeout(v: u8) -> MemoryActiveTimeout {
    match v {
        0b000 => MemoryActiveTimeout::MaxTime1s,
        0b001 => MemoryActiveTimeout::MaxTime4s,
        0b010 => MemoryActiveTimeout::MaxTime16s,
        0b011 => MemoryActiveTimeout::MaxTime64s,
        0b100 => MemoryActiveTimeout::MaxTime256s,
        n => MemoryActiveTimeout::Reserved(n),
    }
}

pub fn range_size(lo: u32, hi: u32) -> CxlRangeSize {
    CxlRangeSize {
        memory_info_valid: bit(lo, 0),
        memory_active: bit(lo, 1),
        media_type: m_media_type(f8(lo, 2, 4)),
        memory_class: m_memory_class(f8(lo, 5, 7)),
        desired_interleave: m_desired_interleave(f8(lo, 8, 12)),
        memory_active_timeout: m_memory_active_timeout(f8(lo, 13, 15)),
        memory_size: (hi as u64) << 32 | (lo as u64 & 0xf000_0000),
    }
}
pub fn range_base(lo: u32, hi: u32) -> CxlRangeBase {
    CxlRangeBase { memory_base: (hi as u64) << 32 | (lo as u64 & 0xf000_0000) }
}
/// Registers after the DVSEC header 2
pub fn expect(r: &[u8]) -> Option<PcieDvsecForCxlDevice> {
    (r.len() >= 46).then(|| PcieDvsecForCxlDevice {
        cxl_capability: m_cxl_capability(u16at(r, 0)),
        cxl_control: m_cxl_control(u16at(r, 2)),
        cxl_status: m_cxl_status(u16at(r, 4)),
        cxl_control2: m_cxl_control2(u16at(r, 6)),
        cxl_status2: m_cxl_status2(u16at(r, 8)),
        cxl_lock: m_cxl_lock(u16at(r, 10)),
        cxl_capability2: m_cxl_capability2(u16at(r, 12)),
        cxl_range_1_size: range_size(u32at(r, 18), u32at(r, 14)),
        cxl_range_1_base: range_base(u32at(r, 26), u32at(r, 22)),
        cxl_range_2_size: range_size(u32at(r, 34), u32at(r, 30)),
        cxl_range_2_base: range_base(u32at(r, 42), u32at(r, 38)),
    })
}
}

pub mod dvsec {
use crate::*;
use pcics::extended_capabilities::designated_vendor_specific_extended_capability::*;
use pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLinkError;
use DesignatedVendorSpecificExtendedCapabilityError as E;

/// `d` starts at the capability header
pub fn check(d: &[u8]) -> Verdict {
    let real = DesignatedVendorSpecificExtendedCapability::try_from(d);
    if d.len() < 10 {
        return match real { Err(E::Mandatory) => Ok("error: mandatory"), r => Err(format!("{r:?}")) };
    }
    let (vendor, rev, len, id) = (u16at(d, 4), f8(u16at(d, 6), 0, 3), f16(u16at(d, 6), 4, 15), u16at(d, 8));
    if (len as usize) < 10 || len as usize > d.len() {
        let want = E::VendorSpecificRegisters { dvsec_vendor_id: vendor, dvsec_revision: rev, dvsec_length: len, dvsec_id: id, real: d.len() };
        return match real { Err(e) if e == want => Ok("error: registers"), r => Err(format!("real {r:?} model {want:?}")) };
    }
    let body = &d[10..len as usize];
    if vendor == 0x1e98 && id == 0 && body.len() < 46 {
        let want = E::ComputeExpressLink { source: ComputeExpressLinkError::PcieDvsecForCxlDevice };
        return match real { Err(e) if e == want => Ok("error: CXL"), r => Err(format!("real {r:?} model {want:?}")) };
    }
    let r = real.map_err(|e| format!("error {e:?}"))?;
    same(&(vendor, rev, len, id), &(r.dvsec_vendor_id, r.dvsec_revision, r.dvsec_length, r.dvsec_id))?;
    use ComputeExpressLink as C;
    match (&r.dvsec_type, vendor) {
        (DvsecType::Unspecified(b), v) if v != 0x1e98 => { same(&body, b)?; Ok("unspecified") }
        (DvsecType::ComputeExpressLink(c), 0x1e98) => {
            match (c, id) {
                (C::PcieDvsecForCxlDevice(x), 0) => { same(&super::cxl::expect(body).unwrap(), x)?; Ok("CXL device") }
                (C::NonCxlFunctionMapDvsec(_), 2) | (C::Cxl20ExtensionsDvsecForPorts(_), 3) | (C::GpfDvsecForCxlPorts(_), 4)
                | (C::GpfDvsecForCxlDevices(_), 5) | (C::PcieDvsecForFlexBusPort(_), 7) | (C::RegisterLocatorDvsec(_), 8)
                | (C::MldDvsec(_), 9) | (C::PcieDvsecForTestCapability(_), 0xa) => Ok("CXL named"),
                (C::Undefined(n), i) if *n == i && !matches!(i, 0 | 2..=5 | 7..=0xa) => Ok("CXL undefined"),
                (c, i) => Err(format!("id {i:#x} decoded as {c:?}")),
            }
        }
        (t, v) => Err(format!("vendor {v:#x} decoded as {t:?}")),
    }
}
pub fn walk(d: &[u8]) { sink(&DesignatedVendorSpecificExtendedCapability::try_from(d)); }
}
