//! Reference decoders: PCI Express, PCI-X, HyperTransport and Enhanced Allocation.
//! Layouts: PCIe 6.0 base, PCI-X 2.0, HyperTransport 3.1; linux pci_regs.h.

pub mod pci_express {
use crate::*;
use pcics::capabilities::pci_express::*;

pub fn m_device_capabilities(v: u32) -> DeviceCapabilities {
    DeviceCapabilities {
        max_payload_size_supported: m_max_size(f8(v, 0, 2)),
        phantom_functions_supported: m_phantom_functions_supported(f8(v, 3, 4)),
        extended_tag_field_supported: m_extended_tag_field_supported(bit(v, 5)),
        endpoint_l0s_acceptable_latency: m_endpoint_l0s_acceptable_latency(f8(v, 6, 8)),
        endpoint_l1_acceptable_latency: m_endpoint_l1_acceptable_latency(f8(v, 9, 11)),
        attention_button_present: bit(v, 12),
        attention_indicator_present: bit(v, 13),
        power_indicator_present: bit(v, 14),
        role_based_error_reporting: bit(v, 15),
        captured_slot_power_limit: SlotPowerLimit::new(
            f8(v, 18, 25),
            f8(v, 26, 27),
        ), 
        function_level_reset_capability: bit(v, 28),
    }
}

pub fn m_max_size(v: u8) -> MaxSize {
    match v {
        0b000 => MaxSize::B128,
        0b001 => MaxSize::B256,
        0b010 => MaxSize::B512,
        0b011 => MaxSize::B1024,
        0b100 => MaxSize::B2048,
        0b101 => MaxSize::B4096,
        0b110 => MaxSize::Reserved0,
        0b111 => MaxSize::Reserved1,
        _ => unreachable!(),
    }
}

pub fn m_phantom_functions_supported(v: u8) -> PhantomFunctionsSupported {
    match v {
        0b00 => PhantomFunctionsSupported::NoBits,
        0b01 => PhantomFunctionsSupported::MostSignificantBit,
        0b10 => PhantomFunctionsSupported::TwoMostSignificantBits,
        0b11 => PhantomFunctionsSupported::AllBits,
        _ => unreachable!(),
    }
}

pub fn m_extended_tag_field_supported(v: bool) -> ExtendedTagFieldSupported {
    if v {
        ExtendedTagFieldSupported::Eight
    } else {
        ExtendedTagFieldSupported::Five
    }
}

pub fn m_endpoint_l0s_acceptable_latency(v: u8) -> EndpointL0sAcceptableLatency {
    match v {
        0b000 => EndpointL0sAcceptableLatency::Max64ns,
        0b001 => EndpointL0sAcceptableLatency::Max128ns,
        0b010 => EndpointL0sAcceptableLatency::Max256ns,
        0b011 => EndpointL0sAcceptableLatency::Max512ns,
        0b100 => EndpointL0sAcceptableLatency::Max1us,
        0b101 => EndpointL0sAcceptableLatency::Max2us,
        0b110 => EndpointL0sAcceptableLatency::Max4us,
        0b111 => EndpointL0sAcceptableLatency::NoLimit,
        _ => unreachable!(),
    }
}

pub fn m_endpoint_l1_acceptable_latency(v: u8) -> EndpointL1AcceptableLatency {
    match v {
        0b000 => EndpointL1AcceptableLatency::Max1us,
        0b001 => EndpointL1AcceptableLatency::Max2us,
        0b010 => EndpointL1AcceptableLatency::Max4us,
        0b011 => EndpointL1AcceptableLatency::Max8us,
        0b100 => EndpointL1AcceptableLatency::Max16us,
        0b101 => EndpointL1AcceptableLatency::Max32us,
        0b110 => EndpointL1AcceptableLatency::Max64us,
        0b111 => EndpointL1AcceptableLatency::NoLimit,
        _ => unreachable!(),
    }
}

pub fn m_device_control(v: u16) -> DeviceControl {
    DeviceControl {
        correctable_error_reporting_enable: bit(v, 0),
        non_fatal_error_reporting_enable: bit(v, 1),
        fatal_error_reporting_enable: bit(v, 2),
        unsupported_request_reporting_enable: bit(v, 3),
        enable_relaxed_ordering: bit(v, 4),
        max_payload_size: m_max_size(f8(v, 5, 7)),
        extended_tag_field_enable: bit(v, 8),
        phantom_functions_enable: bit(v, 9),
        aux_power_pm_enable: bit(v, 10),
        enable_no_snoop: bit(v, 11),
        max_read_request_size: m_max_size(f8(v, 12, 14)),
        bcre_or_flreset: bit(v, 15),
    }
}

pub fn m_device_status(v: u16) -> DeviceStatus {
    DeviceStatus {
        correctable_error_detected: bit(v, 0),
        non_fatal_error_detected: bit(v, 1),
        fatal_error_detected: bit(v, 2),
        unsupported_request_detected: bit(v, 3),
        aux_power_detected: bit(v, 4),
        transactions_pending: bit(v, 5),
    }
}

pub fn m_link_capabilities(v: u32) -> LinkCapabilities {
    LinkCapabilities {
        max_link_speed: m_link_speed(f8(v, 0, 3)),
        maximum_link_width: m_link_width(f8(v, 4, 9)),
        active_state_power_management_support: m_active_state_power_management(f8(v, 10, 11)),
        l0s_exit_latency: m_l0s_exit_latency(f8(v, 12, 14)),
        l1_exit_latency: m_l1_exit_latency(f8(v, 15, 17)),
        clock_power_management: bit(v, 18),
        surprise_down_error_reporting_capable: bit(v, 19),
        data_link_layer_link_active_reporting_capable: bit(v, 20),
        link_bandwidth_notification_capability: bit(v, 21),
        aspm_optionality_compliance: bit(v, 22),
        port_number: f8(v, 24, 31),
    }
}

pub fn m_link_speed(v: u8) -> LinkSpeed {
    match v {
        0b0001 => LinkSpeed::Rate2GTps,
        0b0010 => LinkSpeed::Rate5GTps,
        0b0011 => LinkSpeed::Rate8GTps,
        0b0100 => LinkSpeed::Rate16GTps,
        0b0101 => LinkSpeed::Rate32GTps,
        0b0110 => LinkSpeed::Rate64GTps,
        0b0111 => LinkSpeed::RateRsvdp,
        n => LinkSpeed::Reserved(n),
    }
}

pub fn m_link_width(v: u8) -> LinkWidth {
    match v {
        0b00_0001 => LinkWidth::X1,
        0b00_0010 => LinkWidth::X2,
        0b00_0100 => LinkWidth::X4,
        0b00_1000 => LinkWidth::X8,
        0b00_1100 => LinkWidth::X12,
        0b01_0000 => LinkWidth::X16,
        0b10_0000 => LinkWidth::X32,
        n => LinkWidth::Reserved(n),
    }
}

pub fn m_active_state_power_management(v: u8) -> ActiveStatePowerManagement {
    match v {
        0b00 => ActiveStatePowerManagement::NoAspm,
        0b01 => ActiveStatePowerManagement::L0s,
        0b10 => ActiveStatePowerManagement::L1,
        0b11 => ActiveStatePowerManagement::L0sAndL1,
        _ => unreachable!(),
    }
}

pub fn m_l0s_exit_latency(v: u8) -> L0sExitLatency {
    match v {
        0b000 => L0sExitLatency::Lt64ns,
        0b001 => L0sExitLatency::Ge64nsAndLt128ns,
        0b010 => L0sExitLatency::Ge128nsAndLt256ns,
        0b011 => L0sExitLatency::Ge256nsAndLt512ns,
        0b100 => L0sExitLatency::Ge512nsAndLt1us,
        0b101 => L0sExitLatency::Ge1usAndLt2us,
        0b110 => L0sExitLatency::Ge2usAndLt4us,
        0b111 => L0sExitLatency::Gt4ns,
        _ => unreachable!(),
    }
}

pub fn m_l1_exit_latency(v: u8) -> L1ExitLatency {
    match v {
        0b000 => L1ExitLatency::Lt1us,
        0b001 => L1ExitLatency::Ge1usAndLt2us,
        0b010 => L1ExitLatency::Ge2usAndLt4us,
        0b011 => L1ExitLatency::Ge4usAndLt8us,
        0b100 => L1ExitLatency::Ge8usAndLt16us,
        0b101 => L1ExitLatency::Ge16usAndLt32us,
        0b110 => L1ExitLatency::Ge32usAndLt64us,
        0b111 => L1ExitLatency::Gt64ns,
        _ => unreachable!(),
    }
}

pub fn m_link_control(v: u16) -> LinkControl {
    LinkControl {
        active_state_power_management_control: m_active_state_power_management(f8(v, 0, 1)),
        read_completion_boundary: m_read_completion_boundary(bit(v, 3)),
        link_disable: bit(v, 4),
        retrain_link: bit(v, 5),
        common_clock_configuration: bit(v, 6),
        extended_synch: bit(v, 7),
        enable_clock_power_management: bit(v, 8),
        hardware_autonomous_width_disable: bit(v, 9),
        link_bandwidth_management_interrupt_enable: bit(v, 10),
        link_autonomous_bandwidth_interrupt_enable: bit(v, 11),
    }
}

pub fn m_read_completion_boundary(v: bool) -> ReadCompletionBoundary {
    if v {
        ReadCompletionBoundary::B128
    } else {
        ReadCompletionBoundary::B64
    }
}

pub fn m_link_status(v: u16) -> LinkStatus {
    LinkStatus {
        current_link_speed: m_link_speed(f8(v, 0, 3)),
        negotiated_link_width: m_link_width(f8(v, 4, 9)),
        link_training_error: bit(v, 10),
        link_training: bit(v, 11),
        slot_clock_configuration: bit(v, 12),
        data_link_layer_link_active: bit(v, 13),
        link_bandwidth_management_status: bit(v, 14),
        link_autonomous_bandwidth_status: bit(v, 15),
    }
}

pub fn m_slot_capabilities(v: u32) -> SlotCapabilities {
    SlotCapabilities {
        attention_button_present: bit(v, 0),
        power_controller_present: bit(v, 1),
        mrl_sensor_present: bit(v, 2),
        attention_indicator_present: bit(v, 3),
        power_indicator_present: bit(v, 4),
        hot_plug_surprise: bit(v, 5),
        hot_plug_capable: bit(v, 6),
        slot_power_limit: SlotPowerLimit::new(
            f8(v, 7, 14),
            f8(v, 15, 16),
        ), 
        electromechanical_interlock_present: bit(v, 17),
        no_command_completed_support: bit(v, 18),
        physical_slot_number: f16(v, 19, 31),
    }
}

pub fn m_slot_control(v: u16) -> SlotControl {
    SlotControl {
        attention_button_pressed_enable: bit(v, 0),
        power_fault_detected_enable: bit(v, 1),
        mrl_sensor_changed_enable: bit(v, 2),
        presence_detect_changed_enable: bit(v, 3),
        command_completed_interrupt_enable: bit(v, 4),
        hot_plug_interrupt_enable: bit(v, 5),
        attention_indicator_control: m_indicator_control(f8(v, 6, 7)),
        power_indicator_control: m_indicator_control(f8(v, 8, 9)),
        power_controller_control: bit(v, 10),
        electromechanical_interlock_control: bit(v, 11),
        data_link_layer_state_changed_enable: bit(v, 12),
    }
}

pub fn m_indicator_control(v: u8) -> IndicatorControl {
    match v {
        0b00 => IndicatorControl::Reserved,
        0b01 => IndicatorControl::On,
        0b10 => IndicatorControl::Blink,
        0b11 => IndicatorControl::Off,
        _ => unreachable!(),
    }
}

pub fn m_slot_status(v: u16) -> SlotStatus {
    SlotStatus {
        attention_button_pressed: bit(v, 0),
        power_fault_detected: bit(v, 1),
        mrl_sensor_changed: bit(v, 2),
        presence_detect_changed: bit(v, 3),
        command_completed: bit(v, 4),
        mrl_sensor_state: bit(v, 5),
        presence_detect_state: bit(v, 6),
        electromechanical_interlock_status: bit(v, 7),
        data_link_layer_state_changed: bit(v, 8),
    }
}

pub fn m_root_control(v: u16) -> RootControl {
    RootControl {
        system_error_on_correctable_error_enable: bit(v, 0),
        system_error_on_non_fatal_error_enable: bit(v, 1),
        system_error_on_fatal_error_enable: bit(v, 2),
        pme_interrupt_enable: bit(v, 3),
        crs_software_visibility_enable: bit(v, 4),
    }
}

pub fn m_root_capabilities(v: u16) -> RootCapabilities {
    RootCapabilities {
        crs_software_visibility: bit(v, 0),
    }
}

pub fn m_root_status(v: u32) -> RootStatus {
    RootStatus {
        pme_requester_id: f16(v, 0, 15),
        pme_status: bit(v, 16),
        pme_pending: bit(v, 17),
    }
}

pub fn m_device_capabilities2(v: u32) -> DeviceCapabilities2 {
    DeviceCapabilities2 {
        completion_timeout_ranges_supported: m_completion_timeout_ranges(f8(v, 0, 3)),
        completion_timeout_disable_supported: bit(v, 4),
        ari_forwarding_supported: bit(v, 5),
        atomic_op_routing_supported: bit(v, 6),
        u32_atomicop_completer_supported: bit(v, 7),
        u64_atomicop_completer_supported: bit(v, 8),
        u128_cas_completer_supported: bit(v, 9),
        no_ro_enabled_pr_pr_passing: bit(v, 10),
        ltr_mechanism_supported: bit(v, 11),
        tph_completer_supported: m_tph_completer(f8(v, 12, 13)),
        ln_system_cls: m_ln_system_cls(f8(v, 14, 15)),
        support_10bit_tag_completer: bit(v, 16),
        support_10bit_tag_requester: bit(v, 17),
        obff_supported: m_obff(f8(v, 18, 19)),
        extended_fmt_field_supported: bit(v, 20),
        end_end_tlp_prefix_supported: bit(v, 21),
        max_end_end_tlp_prefixes: m_max_end_end_tlp_prefixes(f8(v, 22, 23)),
        emergency_power_reduction_supported: m_emergency_power_reduction(f8(v, 24, 25)),
        emergency_power_reduction_initialization_required: bit(v, 26),
        frs_supported: bit(v, 31),
    }
}

pub fn m_completion_timeout_ranges(v: u8) -> CompletionTimeoutRanges {
    match v {
        0b0000 => CompletionTimeoutRanges::NotSupported,
        0b0001 => CompletionTimeoutRanges::RangeA,
        0b0010 => CompletionTimeoutRanges::RangeB,
        0b0011 => CompletionTimeoutRanges::RangesAB,
        0b0110 => CompletionTimeoutRanges::RangesBC,
        0b0111 => CompletionTimeoutRanges::RangesABC,
        0b1110 => CompletionTimeoutRanges::RangesBCD,
        0b1111 => CompletionTimeoutRanges::RangesABCD,
        n => CompletionTimeoutRanges::Reserved(n),
    }
}

pub fn m_tph_completer(v: u8) -> TphCompleter {
    match v {
        0b00 => TphCompleter::NotSupported,
        0b01 => TphCompleter::Tph,
        0b10 => TphCompleter::Reserved,
        0b11 => TphCompleter::TphAndExtendedTph,
        _ => unreachable!(),
    }
}

pub fn m_ln_system_cls(v: u8) -> LnSystemCls {
    match v {
        0b00 => LnSystemCls::NotSupported,
        0b01 => LnSystemCls::Cachelines64Byte,
        0b10 => LnSystemCls::Cachelines128Byte,
        0b11 => LnSystemCls::Reserved,
        _ => unreachable!(),
    }
}

pub fn m_obff(v: u8) -> Obff {
    match v {
        0b00 => Obff::NotSupported,
        0b01 => Obff::Message,
        0b10 => Obff::Wake,
        0b11 => Obff::WakeAndMessage,
        _ => unreachable!(),
    }
}

pub fn m_max_end_end_tlp_prefixes(v: u8) -> MaxEndEndTlpPrefixes {
    match v {
        0b00 => MaxEndEndTlpPrefixes::Max4,
        0b01 => MaxEndEndTlpPrefixes::Max1,
        0b10 => MaxEndEndTlpPrefixes::Max2,
        0b11 => MaxEndEndTlpPrefixes::Max3,
        _ => unreachable!(),
    }
}

pub fn m_emergency_power_reduction(v: u8) -> EmergencyPowerReduction {
    match v {
        0b00 => EmergencyPowerReduction::NotSupported,
        0b01 => EmergencyPowerReduction::DeviceSpecific,
        0b10 => EmergencyPowerReduction::FormFactorOrDeviceSpecific,
        0b11 => EmergencyPowerReduction::Reserved,
        _ => unreachable!(),
    }
}

pub fn m_device_control2(v: u16) -> DeviceControl2 {
    DeviceControl2 {
        completion_timeout_value: m_completion_timeout_value(f8(v, 0, 3)),
        completion_timeout_disable: bit(v, 4),
        ari_forwarding_enable: bit(v, 5),
        atomic_op_requester_enable: bit(v, 6),
        atomic_op_egress_blocking: bit(v, 7),
        ido_request_enable: bit(v, 8),
        ido_completion_enable: bit(v, 9),
        ltr_mechanism_enable: bit(v, 10),
        emergency_power_reduction_request: bit(v, 11),
        enable_10bit_tag_requester: bit(v, 12),
        obff_enable: m_obff_enable(f8(v, 13, 14)),
        end_end_tlp_prefix_blocking: m_end_end_tlp_prefix_blocking(bit(v, 15)),
    }
}

pub fn m_completion_timeout_value(v: u8) -> CompletionTimeoutValue {
    match v {
        0b0000 => CompletionTimeoutValue::DefaultRange50usTo50ms,
        0b0001 => CompletionTimeoutValue::RangeA50usTo100us,
        0b0010 => CompletionTimeoutValue::RangeA1msTo10ms,
        0b0101 => CompletionTimeoutValue::RangeB16msTo55mss,
        0b0110 => CompletionTimeoutValue::RangeB65msTo210ms,
        0b1001 => CompletionTimeoutValue::RangeC260msTo900ms,
        0b1010 => CompletionTimeoutValue::RangeC1000msTo3500ms,
        0b1101 => CompletionTimeoutValue::RangeD4sTo13s,
        0b1110 => CompletionTimeoutValue::RangeD17sTo64s,
        n => CompletionTimeoutValue::Reserved(n),
    }
}

pub fn m_obff_enable(v: u8) -> ObffEnable {
    match v {
        0b00 => ObffEnable::Disabled,
        0b01 => ObffEnable::MessageSignalingA,
        0b10 => ObffEnable::MessageSignalingB,
        0b11 => ObffEnable::WakeSignaling,
        _ => unreachable!(),
    }
}

pub fn m_device_status2(v: u16) -> DeviceStatus2 {
    DeviceStatus2 {}
}

pub fn m_end_end_tlp_prefix_blocking(v: bool) -> EndEndTlpPrefixBlocking {
    if v {
        EndEndTlpPrefixBlocking::ForwardingBlocked
    } else {
        EndEndTlpPrefixBlocking::ForwardingEnabled
    }
}

pub fn m_link_capabilities2(v: u32) -> LinkCapabilities2 {
    LinkCapabilities2 {
        supported_link_speeds_vector: m_supported_link_speeds_vector(f8(v, 1, 7)),
        crosslink_supported: bit(v, 8),
        lower_skp_os_generation_supported_speeds_vector: m_supported_link_speeds_vector(f8(
            v, 9, 15,
        )),
        lower_skp_os_reception_supported_speeds_vector: m_supported_link_speeds_vector(f8(
            v, 16, 22,
        )),
        retimer_presence_detect_supported: bit(v, 23),
        two_retimers_presence_detect_supported: bit(v, 24),
        drs_supported: bit(v, 31),
    }
}

pub fn m_supported_link_speeds_vector(v: u8) -> SupportedLinkSpeedsVector {
    SupportedLinkSpeedsVector {
        speed_2_5_gtps: bit(v, 0),
        speed_5_0_gtps: bit(v, 1),
        speed_8_0_gtps: bit(v, 2),
        speed_16_0_gtps: bit(v, 3),
        speed_32_0_gtps: bit(v, 4),
        speed_64_0_gtps: bit(v, 5),
        reserved: bit(v, 6),
    }
}

pub fn m_link_control2(v: u16) -> LinkControl2 {
    LinkControl2 {
        target_link_speed: m_link_speed(f8(v, 0, 3)),
        enter_compliance: bit(v, 4),
        hardware_autonomous_speed_disable: bit(v, 5),
        selectable_de_emphasis: m_de_emphasis(bit(v, 6)),
        transmit_margin: m_transmit_margin(f8(v, 7, 9)),
        enter_modified_compliance: bit(v, 10),
        compliance_sos: bit(v, 11),
        compliance_preset_or_de_emphasis: m_compliance_preset_or_de_emphasis(f8(v, 12, 15)),
    }
}

pub fn m_de_emphasis(v: bool) -> DeEmphasis {
    if v {
        DeEmphasis::Minus3_5dB
    } else {
        DeEmphasis::Minus6dB
    }
}

pub fn m_transmit_margin(v: u8) -> TransmitMargin {
    TransmitMargin(v)
}

pub fn m_compliance_preset_or_de_emphasis(v: u8) -> CompliancePresetOrDeEmphasis {
    CompliancePresetOrDeEmphasis(v)
}

pub fn m_link_status2(v: u16) -> LinkStatus2 {
    LinkStatus2 {
        current_de_emphasis_level: m_de_emphasis(bit(v, 0)),
        equalization_complete: bit(v, 1),
        equalization_phase_1_successful: bit(v, 2),
        equalization_phase_2_successful: bit(v, 3),
        equalization_phase_3_successful: bit(v, 4),
        link_equalization_request: bit(v, 5),
        retimer_presence_detected: bit(v, 6),
        two_retimers_presence_detected: bit(v, 7),
        crosslink_resolution: m_crosslink_resolution(f8(v, 8, 9)),
        downstream_component_presence: m_downstream_component_presence(f8(v, 12, 14)),
        drs_message_received: bit(v, 15),
    }
}

pub fn m_crosslink_resolution(v: u8) -> CrosslinkResolution {
    match v {
        0b00 => CrosslinkResolution::NotSupported,
        0b01 => CrosslinkResolution::UpstreamPort,
        0b10 => CrosslinkResolution::DownstreamPort,
        0b11 => CrosslinkResolution::NotCompleted,
        _ => unreachable!(),
    }
}

pub fn m_downstream_component_presence(v: u8) -> DownstreamComponentPresence {
    match v {
        0b000 => DownstreamComponentPresence::DownNotDetermined,
        0b001 => DownstreamComponentPresence::DownNotPresent,
        0b010 => DownstreamComponentPresence::DownPresent,
        0b100 => DownstreamComponentPresence::UpPresent,
        0b101 => DownstreamComponentPresence::UpPresentAndDrsReceived,
        n => DownstreamComponentPresence::Reserved(n),
    }
}

pub fn m_slot_capabilities2(v: u32) -> SlotCapabilities2 {
    SlotCapabilities2 {}
}

pub fn m_slot_control2(v: u16) -> SlotControl2 {
    SlotControl2 {}
}

pub fn m_slot_status2(v: u16) -> SlotStatus2 {
    SlotStatus2 {}
}

pub fn m_transmitter_preset(v: u8) -> TransmitterPreset {
    match v {
        0b0000 => TransmitterPreset::P0,
        0b0001 => TransmitterPreset::P1,
        0b0010 => TransmitterPreset::P2,
        0b0011 => TransmitterPreset::P3,
        0b0100 => TransmitterPreset::P4,
        0b0101 => TransmitterPreset::P5,
        0b0110 => TransmitterPreset::P6,
        0b0111 => TransmitterPreset::P7,
        0b1000 => TransmitterPreset::P8,
        0b1001 => TransmitterPreset::P9,
        0b1010 => TransmitterPreset::P10,
        n => TransmitterPreset::Reserved(n),
    }
}

pub fn m_receiver_preset_hint(v: u8) -> ReceiverPresetHint {
    match v {
        0b000 => ReceiverPresetHint::Minus6dB,
        0b001 => ReceiverPresetHint::Minus7dB,
        0b010 => ReceiverPresetHint::Minus8dB,
        0b011 => ReceiverPresetHint::Minus9dB,
        0b100 => ReceiverPresetHint::Minus10dB,
        0b101 => ReceiverPresetHint::Minus11dB,
        0b110 => ReceiverPresetHint::Minus12dB,
        _ => ReceiverPresetHint::Reserved,
    }
}

fn link_regs(d: &[u8], o: usize) -> Link {
    Link { capabilities: m_link_capabilities(u32at(d, o)), control: m_link_control(u16at(d, o + 4)), status: m_link_status(u16at(d, o + 6)) }
}
fn slot_regs(d: &[u8], o: usize) -> Slot {
    Slot { capabilities: m_slot_capabilities(u32at(d, o)), control: m_slot_control(u16at(d, o + 4)), status: m_slot_status(u16at(d, o + 6)) }
}
/// Data starts at offset 02h of the capability
pub fn expect(d: &[u8]) -> Result<PciExpress, PciExpressError> {
    if d.len() < 26 { return Err(PciExpressError::RequiredBytesSlice); }
    let w = u16at(d, 0);
    let version = f8(w, 0, 3);
    let id = f8(w, 4, 7);
    let link = link_regs(d, 10);
    let slot = slot_regs(d, 18);
    let root = (d.len() >= 34).then(|| Root {
        control: m_root_control(u16at(d, 26)),
        capabilities: m_root_capabilities(u16at(d, 28)),
        status: m_root_status(u32at(d, 30)),
    });
    let second = |end: usize| version > 1 && d.len() >= end;
    let device_2 = second(42).then(|| Device2 {
        capabilities: m_device_capabilities2(u32at(d, 34)),
        control: m_device_control2(u16at(d, 38)),
        status: m_device_status2(u16at(d, 40)),
    });
    let link_2 = second(50).then(|| Link2 {
        capabilities: m_link_capabilities2(u32at(d, 42)),
        control: m_link_control2(u16at(d, 46)),
        status: m_link_status2(u16at(d, 48)),
    });
    let slot_2 = second(58).then(|| Slot2 {
        capabilities: m_slot_capabilities2(u32at(d, 50)),
        control: m_slot_control2(u16at(d, 54)),
        status: m_slot_status2(u16at(d, 56)),
    });
    let device_type = match id {
        0x0 => DeviceType::Endpoint { link, link_2 },
        0x1 => DeviceType::LegacyEndpoint { link, link_2 },
        0x4 => DeviceType::RootPort { link, link_2, slot, slot_2, root: root.ok_or(PciExpressError::RootBytesSlice)? },
        0x5 => DeviceType::UpstreamPort { link, link_2 },
        0x6 => DeviceType::DownstreamPort { link, link_2, slot, slot_2 },
        0x7 => DeviceType::PcieToPciBridge { link, link_2 },
        0x8 => DeviceType::PciToPcieBridge { link, link_2, slot, slot_2 },
        0x9 => DeviceType::RootComplexIntegratedEndpoint,
        0xa => DeviceType::RootComplexEventCollector { root: root.ok_or(PciExpressError::RootBytesSlice)? },
        id => DeviceType::Reserved { id, link, link_2, slot, slot_2, root },
    };
    Ok(PciExpress {
        version,
        device_type,
        slot_implemented: bit(w, 8),
        interrupt_message_number: f8(w, 9, 13),
        tcs_routing_support: bit(w, 14),
        device: Device {
            capabilities: m_device_capabilities(u32at(d, 2)),
            control: m_device_control(u16at(d, 6)),
            status: m_device_status(u16at(d, 8)),
        },
        device_2,
    })
}
/// The power limit in watts: value times 1, 0.1, 0.01 or 0.001; with scale 1 the values F0h, F1h
/// and F2h stand for 250, 275 and 300 W, and those above are reserved
fn watts(l: &SlotPowerLimit, value: u8, scale: u8) -> Result<(), String> {
    let want = match (scale, value) {
        (0, 0xf0..=0xf2) => 250.0 + 25.0 * (value - 0xf0) as f64,
        (0, 0xf3..) => return Ok(()),
        _ => value as f64 / [1.0, 10.0, 100.0, 1000.0][scale as usize],
    };
    for got in [f32::from(l), f32::from(l.clone())] {
        if (got as f64 - want).abs() > want * 1e-6 {
            return Err(format!("slot power limit real {got} W model {want} W"));
        }
    }
    Ok(())
}
fn derived(d: &[u8], p: &PciExpress) -> Result<(), String> {
    let id = f8(u16at(d, 0), 4, 7);
    let dt = &p.device_type;
    same(&[matches!(id, 0 | 1 | 9), matches!(id, 4 | 10), matches!(id, 4 | 6 | 8)],
         &[dt.is_endpoint(), dt.is_root(), dt.is_downstream_port()])?;
    watts(&p.device.capabilities.captured_slot_power_limit, f8(u32at(d, 2), 18, 25), f8(u32at(d, 2), 26, 27))?;
    match dt {
        DeviceType::RootPort { slot, .. } | DeviceType::DownstreamPort { slot, .. } | DeviceType::PciToPcieBridge { slot, .. }
        | DeviceType::Reserved { slot, .. } =>
            watts(&slot.capabilities.slot_power_limit, f8(u32at(d, 18), 7, 14), f8(u32at(d, 18), 15, 16)),
        _ => Ok(()),
    }
}
pub fn check(d: &[u8]) -> Verdict {
    let r = PciExpress::try_from(d);
    if let Ok(p) = &r { derived(d, p)?; }
    cmp_err(r, expect(d))
}
pub fn walk(d: &[u8]) { sink(&PciExpress::try_from(d)); }
}

pub mod pci_x {
use crate::*;
use pcics::capabilities::pci_x::*;

pub fn m_command(v: u16) -> Command {
    Command {
        uncorrectable_data_error_recovery_enable: bit(v, 0),
        enable_relaxed_ordering: bit(v, 1),
        maximum_memory_read_byte_count: MaximumByteCount(f8(v, 2, 3)),
        maximum_outstanding_split_transactions: MaximumOutstandingSplitTransactions(
            f8(v, 4, 6),
        ), 
    }
}

pub fn m_status(v: u32) -> Status {
    Status {
        function_number: f8(v, 0, 2),
        device_number: f8(v, 3, 7),
        bus_number: f8(v, 8, 15),
        device_64_bit: bit(v, 16),
        pci_x_133_capable: bit(v, 17),
        slit_completion_discarded: bit(v, 18),
        unexpected_split_completion: bit(v, 19),
        device_complexity: m_device_complexity(bit(v, 20)),
        designed_maximum_memory_read_byte_count: MaximumByteCount(
            f8(v, 21, 22),
        ), 
        designed_maximum_outstanding_split_transactions: MaximumOutstandingSplitTransactions(
            f8(v, 23, 25),
        ), 
        designed_maximum_cumulative_read_size: MaximumCumulativeReadSize(
            f8(v, 26, 28),
        ), 
        received_split_completion_error_message: bit(v, 29),
        pci_x_266_capable: bit(v, 30),
        pci_x_533_capable: bit(v, 31),
    }
}

pub fn m_device_complexity(v: bool) -> DeviceComplexity {
    if v {
        DeviceComplexity::Bridge
    } else {
        DeviceComplexity::Simple
    }
}

pub fn m_ecc_control_and_status(v: u32) -> EccControlAndStatus {
    EccControlAndStatus {
        select_secondary_ecc_registers: bit(v, 0),
        error_present_in_other_ecc_register_bank: bit(v, 1),
        additional_correctable_ecc_error: bit(v, 2),
        additional_uncorrectable_ecc_error: bit(v, 3),
        ecc_error_phase: m_ecc_error_phase(f8(v, 4, 6)),
        ecc_error_corrected: bit(v, 7),
        syndrome: m_syndrome(f8(v, 8, 15)),
        error_first_command: f8(v, 16, 19),
        error_second_command: f8(v, 20, 23),
        error_upper_attributes: f8(v, 24, 27),
        ecc_control_update_enable: bit(v, 28),
        disable_single_bit_error_correction: bit(v, 30),
        ecc_mode: bit(v, 31),
    }
}

pub fn m_ecc_error_phase(v: u8) -> EccErrorPhase {
    match v {
        0 => EccErrorPhase::NoError,
        1 => EccErrorPhase::First32bits,
        2 => EccErrorPhase::Second32bits,
        3 => EccErrorPhase::AttributePhase,
        4 => EccErrorPhase::Phase32or16bit,
        5 => EccErrorPhase::Phase64bit,
        6 | 7 => EccErrorPhase::Reserved,
        _ => unreachable!(),
    }
}

pub fn m_syndrome(v: u8) -> Syndrome {
    Syndrome {
        e0: bit(v, 0),
        e1: bit(v, 1),
        e2: bit(v, 2),
        e3: bit(v, 3),
        e4: bit(v, 4),
        e5: bit(v, 5),
        e6: bit(v, 6),
        e7: bit(v, 7),
    }
}

pub fn m_secondary_status(v: u16) -> SecondaryStatus {
    SecondaryStatus {
        device_64_bit: bit(v, 0),
        pci_x_133_capable: bit(v, 1),
        slit_completion_discarded: bit(v, 2),
        unexpected_split_completion: bit(v, 3),
        split_completion_overrun: bit(v, 4),
        split_request_delayed: bit(v, 5),
        secondary_bus_mode: m_secondary_bus_mode(f8(v, 6, 9)),
        error_protection: m_error_protection(f8(v, 6, 9)),
        secondary_bus_frequency: m_secondary_bus_frequency(f8(v, 6, 9)),
        pci_x_266_capable: bit(v, 14),
        pci_x_533_capable: bit(v, 15),
    }
}

pub fn m_secondary_bus_mode(v: u8) -> SecondaryBusMode {
    match v {
        0x0 => SecondaryBusMode::Conventional,
        0x1..=0x7 => SecondaryBusMode::Mode1,
        0x8..=0xB => SecondaryBusMode::PciX266,
        0xC..=0xF => SecondaryBusMode::PciX533,
        _ => unreachable!(),
    }
}

pub fn m_error_protection(v: u8) -> ErrorProtection {
    match v {
        0x0..=0x3 => ErrorProtection::Parity,
        0x4..=0xF => ErrorProtection::Ecc,
        _ => unreachable!(),
    }
}

pub fn m_secondary_bus_frequency(v: u8) -> SecondaryBusFrequency {
    match v {
        0x0 => SecondaryBusFrequency::NotAvailable,
        0x1 | 0x5 | 0x9 | 0xD => SecondaryBusFrequency::Freq66MHz,
        0x2 | 0x6 | 0xA | 0xE => SecondaryBusFrequency::Freq100MHz,
        0x3 | 0x7 | 0xB | 0xF => SecondaryBusFrequency::Freq133MHz,
        0x4 | 0x8 | 0xC => SecondaryBusFrequency::Reserved,
        _ => unreachable!(),
    }
}

pub fn m_bridge_status(v: u32) -> BridgeStatus {
    BridgeStatus {
        function_number: f8(v, 0, 2),
        device_number: f8(v, 3, 7),
        bus_number: f8(v, 8, 15),
        device_64_bit: bit(v, 16),
        pci_x_133_capable: bit(v, 17),
        slit_completion_discarded: bit(v, 18),
        unexpected_split_completion: bit(v, 19),
        split_completion_overrun: bit(v, 20),
        split_request_delayed: bit(v, 21),
        device_id_messaging_capable: bit(v, 29),
        pci_x_266_capable: bit(v, 30),
        pci_x_533_capable: bit(v, 31),
    }
}

fn ecc(ver: u8, d: &[u8], o: usize) -> Result<Ecc, ()> {
    if ver == 0 { return Ok(Ecc::None); }
    if ver == 3 { return Ok(Ecc::Reserved); }
    if d.len() < o + 16 { return Err(()); }
    let control_and_status = m_ecc_control_and_status(u32at(d, o));
    let (first_address, second_address, attribute) = (u32at(d, o + 4), u32at(d, o + 8), u32at(d, o + 12));
    Ok(if ver == 1 {
        Ecc::Mode2Only { control_and_status, first_address, second_address, attribute }
    } else {
        Ecc::Mode1OrMode2 { control_and_status, first_address, second_address, attribute }
    })
}
pub fn expect(d: &[u8]) -> Result<PciX, PciXError> {
    if d.len() < 6 { return Err(PciXError::CommandAndStatus); }
    let ver = f8(u16at(d, 0), 12, 13);
    Ok(PciX {
        command: m_command(u16at(d, 0)),
        status: m_status(u32at(d, 2)),
        ecc: ecc(ver, d, 6).map_err(|_| if ver == 1 { PciXError::EccMode2Only } else { PciXError::EccMode1OrMode2 })?,
    })
}
pub fn expect_bridge(d: &[u8]) -> Result<PciXBridge, PciXBridgeError> {
    use PciXBridgeError as E;
    if d.len() < 14 { return Err(E::Mandatory); }
    let ver = f8(u16at(d, 0), 12, 13);
    let split = |o| SplitTransactionControl {
        split_transaction_capacity: u16at(d, o),
        split_transaction_commitment_limit: u16at(d, o + 2),
    };
    Ok(PciXBridge {
        secondary_status: m_secondary_status(u16at(d, 0)),
        bridge_status: m_bridge_status(u32at(d, 2)),
        upstream_split_transaction_control: split(6),
        downstream_split_transaction_control: split(10),
        ecc: ecc(ver, d, 14).map_err(|_| if ver == 1 { E::BridgeEccMode2Only } else { E::BridgeEccMode1OrMode2 })?,
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = PciX::try_from(d);
    if let Ok(p) = &r {
        const SPLIT: [u8; 8] = [1, 2, 3, 4, 8, 12, 16, 32];
        let (c, s) = (u16at(d, 0), u32at(d, 2));
        same(&(512usize << f8(c, 2, 3)), &p.command.maximum_memory_read_byte_count.value())?;
        same(&SPLIT[f8(c, 4, 6) as usize], &p.command.maximum_outstanding_split_transactions.value())?;
        same(&(512usize << f8(s, 21, 22)), &p.status.designed_maximum_memory_read_byte_count.value())?;
        same(&SPLIT[f8(s, 23, 25) as usize], &p.status.designed_maximum_outstanding_split_transactions.value())?;
        // an ADQ is 128 bytes
        let adqs = 8usize << f8(s, 26, 28);
        same(&(adqs, adqs * 128), &(p.status.designed_maximum_cumulative_read_size.adqs(), p.status.designed_maximum_cumulative_read_size.bytes()))?;
    }
    cmp_err(r, expect(d))
}
pub fn check_bridge(d: &[u8]) -> Verdict {
    let r = PciXBridge::try_from(d);
    if let Ok(p) = &r {
        same(&f8(u16at(d, 0), 6, 9), &p.secondary_status.secondary_bus_mode_and_frequency())?;
    }
    cmp_err(r, expect_bridge(d))
}
pub fn walk(d: &[u8]) { let r = PciX::try_from(d); sink(&r); let _ = check(d); }
pub fn walk_bridge(d: &[u8]) { let r = PciXBridge::try_from(d); sink(&r); let _ = check_bridge(d); }
}

pub mod ht {
use crate::*;
use pcics::capabilities::hypertransport::*;

pub fn m_slave_or_primary_command(v: u16) -> SlaveOrPrimaryCommand {
    SlaveOrPrimaryCommand {
        base_unitid: f8(v, 0, 4),
        unit_count: f8(v, 5, 9),
        master_host: bit(v, 10),
        default_direction: bit(v, 11),
        drop_on_uninitialized_link: bit(v, 12),
    }
}

pub fn m_link_control(v: u16) -> LinkControl {
    LinkControl {
        source_id_enable: bit(v, 0),
        crc_flood_enable: bit(v, 1),
        crc_start_test: bit(v, 2),
        crc_force_error: bit(v, 3),
        link_failure: bit(v, 4),
        initialization_complete: bit(v, 5),
        end_of_chain: bit(v, 6),
        transmitter_off: bit(v, 7),
        crc_error: f8(v, 8, 11),
        isochronous_flow_control_enable: bit(v, 12),
        ldtstop_tristate_enable: bit(v, 13),
        extended_ctl_time: bit(v, 14),
        enable_64_bit_addressing: bit(v, 15),
    }
}

pub fn m_link_configuration(v: u16) -> LinkConfiguration {
    LinkConfiguration {
        max_link_width_in: m_link_width(f8(v, 0, 2)),
        doubleword_flow_control_in: bit(v, 3),
        max_link_width_out: m_link_width(f8(v, 4, 6)),
        doubleword_flow_control_out: bit(v, 7),
        link_width_in: m_link_width(f8(v, 8, 10)),
        doubleword_flow_control_in_enable: bit(v, 11),
        link_width_out: m_link_width(f8(v, 12, 14)),
        doubleword_flow_control_out_enable: bit(v, 15),
    }
}

pub fn m_link_width(v: u8) -> LinkWidth {
    match v {
        0b000 => LinkWidth::Width8bits,
        0b001 => LinkWidth::Width16bits,
        0b011 => LinkWidth::Width32bits,
        0b100 => LinkWidth::Width2bits,
        0b101 => LinkWidth::Width4bits,
        0b111 => LinkWidth::NotConnected,
        n => LinkWidth::Reserved(n),
    }
}

pub fn m_revision_id(v: u8) -> RevisionId {
    RevisionId {
        minor: f8(v, 0, 4),
        major: f8(v, 5, 7),
    }
}

pub fn m_link_frequency_capability(v: u16) -> LinkFrequencyCapability {
    LinkFrequencyCapability {
        supports_200mhz: bit(v, 0),
        supports_300mhz: bit(v, 1),
        supports_400mhz: bit(v, 2),
        supports_500mhz: bit(v, 3),
        supports_600mhz: bit(v, 4),
        supports_800mhz: bit(v, 5),
        supports_1000mhz: bit(v, 6),
        supports_1200mhz: bit(v, 7),
        supports_1400mhz: bit(v, 8),
        supports_1600mhz: bit(v, 9),
        supports_1800mhz: bit(v, 10),
        supports_2000mhz: bit(v, 11),
        supports_2200mhz: bit(v, 12),
        supports_2400mhz: bit(v, 13),
        supports_2600mhz: bit(v, 14),
        supports_vendor_specific: bit(v, 15),
    }
}

pub fn m_feature_capability(v: u16) -> FeatureCapability {
    FeatureCapability {
        isochronous_flow_control_mode: bit(v, 0),
        ldtstop: bit(v, 1),
        crc_test_mode: bit(v, 2),
        extended_ctl_time_required: bit(v, 3),
        qword_addressing: bit(v, 4),
        unitid_reorder_disable: bit(v, 5),
        source_identification_extension: bit(v, 6),
        extended_register_set: bit(v, 8),
        upstream_configuration_enable: bit(v, 9),
    }
}

pub fn m_error_handling(v: u16) -> ErrorHandling {
    ErrorHandling {
        protocol_error_flood_enable: bit(v, 0),
        overflow_error_flood_enable: bit(v, 1),
        protocol_error_fatal_enable: bit(v, 2),
        overflow_error_fatal_enable: bit(v, 3),
        end_of_chain_error_fatal_enable: bit(v, 4),
        response_error_fatal_enable: bit(v, 5),
        crc_error_fatal_enable: bit(v, 6),
        system_error_fatal_enable: bit(v, 7),
        chain_fail: bit(v, 8),
        response_error: bit(v, 9),
        protocol_error_nonfatal_enable: bit(v, 10),
        overflow_error_nonfatal_enable: bit(v, 11),
        end_of_chain_error_nonfatal_enable: bit(v, 12),
        response_error_nonfatal_enable: bit(v, 13),
        crc_error_nonfatal_enable: bit(v, 14),
        system_error_nonfatal_enable: bit(v, 15),
    }
}

pub fn m_host_or_secondary_command(v: u16) -> HostOrSecondaryCommand {
    HostOrSecondaryCommand {
        warm_reset: bit(v, 0),
        double_ended: bit(v, 1),
        device_number: f8(v, 2, 6),
        chain_side: bit(v, 7),
        host_hide: bit(v, 8),
        act_as_slave: bit(v, 10),
        host_inbound_end_of_chain_error: bit(v, 11),
        drop_on_uninitialized_link: bit(v, 12),
    }
}

fn link_error(v: u8) -> LinkError {
    LinkError { protocol_error: bit(v, 4), overflow_error: bit(v, 5), end_of_chain_error: bit(v, 6), ctl_timeout: bit(v, 7) }
}
pub fn frequency(ext: bool, v: u8) -> LinkFrequency {
    use LinkFrequency::*;
    match (ext, v) {
        (false, v) => [Rate200MHz, Rate300MHz, Rate400MHz, Rate500MHz, Rate600MHz, Rate800MHz, Rate1000MHz, Rate1200MHz, Rate1400MHz,
            Rate1600MHz, Rate1800MHz, Rate2000MHz, Rate2200MHz, Rate2400MHz, Rate2600MHz, VendorSpecific][v as usize].clone(),
        (true, 1) => Rate2800MHz,
        (true, 2) => Rate3000MHz,
        (true, 3) => Rate3200MHz,
        (true, v) => Reserved(0x10 | v),
    }
}
pub fn expect(d: &[u8]) -> Result<Hypertransport, HypertransportError> {
    use HypertransportError as E;
    use Hypertransport as H;
    if d.len() < 2 { return Err(E::CapabilityType); }
    Ok(match d[1] >> 3 {
        0..=3 => {
            if d.len() < 26 { return Err(E::SlaveOrPrimaryInterface); }
            H::SlaveOrPrimaryInterface(SlaveOrPrimaryInterface {
                command: m_slave_or_primary_command(u16at(d, 0)),
                link_control_0: m_link_control(u16at(d, 2)),
                link_config_0: m_link_configuration(u16at(d, 4)),
                link_control_1: m_link_control(u16at(d, 6)),
                link_config_1: m_link_configuration(u16at(d, 8)),
                revision_id: m_revision_id(d[10]),
                link_freq_0: d[11] & 0xf,
                link_error_0: link_error(d[11]),
                link_freq_cap_0: m_link_frequency_capability(u16at(d, 12)),
                feature: m_feature_capability(d[14] as u16),
                link_freq_1: d[15] & 0xf,
                link_error_1: link_error(d[15]),
                link_freq_cap_1: m_link_frequency_capability(u16at(d, 16)),
                enumeration_scratchpad: u16at(d, 18),
                error_handling: m_error_handling(u16at(d, 20)),
                mem_base_upper: d[22],
                mem_limit_upper: d[23],
                bus_number: d[24],
            })
        }
        4..=7 => {
            if d.len() < 22 { return Err(E::HostOrSecondaryInterface); }
            H::HostOrSecondaryInterface(HostOrSecondaryInterface {
                command: m_host_or_secondary_command(u16at(d, 0)),
                link_control: m_link_control(u16at(d, 2)),
                link_config: m_link_configuration(u16at(d, 4)),
                revision_id: m_revision_id(d[6]),
                link_freq: d[7] & 0xf,
                link_error: link_error(d[7]),
                link_freq_cap: m_link_frequency_capability(u16at(d, 8)),
                feature: m_feature_capability(u16at(d, 10)),
                enumeration_scratchpad: u16at(d, 14),
                error_handling: m_error_handling(u16at(d, 16)),
                mem_base_upper: d[18],
                mem_limit_upper: d[19],
            })
        }
        0x08 => H::Switch(Switch {}),
        0x09 => H::ReservedHost(ReservedHost {}),
        0x10 => H::InterruptDiscoveryAndConfiguration(InterruptDiscoveryAndConfiguration {}),
        0x11 => H::RevisionId(m_revision_id(d[0])),
        0x12 => H::UnitIdClumping(UnitIdClumping {}),
        0x13 => H::ExtendedConfigurationSpaceAccess(ExtendedConfigurationSpaceAccess {}),
        0x14 => H::AddressMapping(AddressMapping {}),
        0x15 => {
            // a fixed mapping has no address doublewords: it maps FEEx_xxxxh
            let fixed = bit(d[0], 1);
            if !fixed && d.len() < 10 { return Err(E::MsiMapping); }
            H::MsiMapping(MsiMapping {
                enabled: bit(d[0], 0),
                fixed,
                base_address_lower: if fixed { 0xfee0_0000 } else { u32at(d, 2) },
                base_address_upper: if fixed { 0 } else { u32at(d, 6) },
            })
        }
        0x16 => H::DirectRoute(DirectRoute {}),
        0x17 => H::VCSet(VCSet {}),
        0x18 => H::RetryMode(RetryMode {}),
        0x19 => H::X86Encoding(X86Encoding {}),
        0x1a => H::Gen3(Gen3 {}),
        0x1b => H::FunctionLevelExtension(FunctionLevelExtension {}),
        0x1c => H::PowerManagement(PowerManagement {}),
        0x1d => H::HighNodeCount(HighNodeCount {}),
        v => H::Reserved(v),
    })
}
pub fn check(d: &[u8]) -> Verdict {
    let r = Hypertransport::try_from(d);
    if let Ok(h) = &r {
        for ext in [false, true] {
            match h {
                Hypertransport::SlaveOrPrimaryInterface(s) => same(
                    &(frequency(ext, d[11] & 0xf), frequency(ext, d[15] & 0xf)), &(s.link_freq_0(ext), s.link_freq_1(ext)))?,
                Hypertransport::HostOrSecondaryInterface(s) => same(&frequency(ext, d[7] & 0xf), &s.link_freq(ext))?,
                Hypertransport::MsiMapping(m) => same(
                    &if bit(d[0], 1) { 0xfee0_0000 } else { u64at(d, 2) & !0xf_ffff }, &m.base_address())?,
                _ => (),
            }
        }
    }
    cmp_err(r, expect(d))
}
pub fn walk(d: &[u8]) { let r = Hypertransport::try_from(d); sink(&r); if let Ok(h) = &r { sink(&u8::from(h)); } let _ = check(d); }
}

pub mod ea {
use crate::*;
use pcics::capabilities::enhanced_allocation::*;

pub fn m_bar_equivalent_indicator(v: u8) -> BarEquivalentIndicator {
    match v {
        0x0 => BarEquivalentIndicator::Location10h,
        0x1 => BarEquivalentIndicator::Location14h,
        0x2 => BarEquivalentIndicator::Location18h,
        0x3 => BarEquivalentIndicator::Location1Ch,
        0x4 => BarEquivalentIndicator::Location20h,
        0x5 => BarEquivalentIndicator::Location24h,
        0x6 => BarEquivalentIndicator::BehindType1Function,
        0x7 => BarEquivalentIndicator::EquivalentNotIndicated,
        0x8 => BarEquivalentIndicator::ExpansionRomBaseAddress,
        0x9 => BarEquivalentIndicator::VfBar0,
        0xA => BarEquivalentIndicator::VfBar1,
        0xB => BarEquivalentIndicator::VfBar2,
        0xC => BarEquivalentIndicator::VfBar3,
        0xD => BarEquivalentIndicator::VfBar4,
        0xE => BarEquivalentIndicator::VfBar5,
        0xF => BarEquivalentIndicator::Reserved,
        _ => unreachable!(),
    }
}

pub fn m_resource_definition(v: u8) -> ResourceDefinition {
    match v {
        0x00 => ResourceDefinition::MemorySpaceNonPrefetchable,
        0x01 => ResourceDefinition::MemorySpacePrefetchable,
        0x02 => ResourceDefinition::IoSpace,
        0x03 => ResourceDefinition::PfForVfMemorySpacePrefetchable,
        0x04 => ResourceDefinition::PfForVfMemorySpaceNonPrefetchable,
        0x05 => ResourceDefinition::Type1ForAbbMemoryNonPrefetchable,
        0x06 => ResourceDefinition::Type1ForAbbMemoryPrefetchable,
        0x07 => ResourceDefinition::Type1ForAbbIoSpace,
        v @ 0x08..=0xFC => ResourceDefinition::Reserved(v),
        0xFD => ResourceDefinition::UnavailableMemorySpace,
        0xFE => ResourceDefinition::UnavailableIoSpace,
        0xFF => ResourceDefinition::Unavailable,
    }
}

use pcics::header::{Header, HeaderType};
/// (length in bytes actually read, entry)
pub fn entry(d: &[u8]) -> Option<(usize, EnhancedAllocationEntry)> {
    if d.len() < 12 { return None; }
    let (h, base, max) = (u32at(d, 0), u32at(d, 4), u32at(d, 8));
    let mut end = 12;
    let mut addr = |lo: u32, low_bits: u32| {
        if !bit(lo, 1) { return Some(ResourceRangeAddress::U32(lo & !3 | low_bits)); }
        if d.len() < end + 4 { return None; }
        let hi = u32at(d, end) as u64;
        end += 4;
        Some(ResourceRangeAddress::U64(hi << 32 | (lo & !3 | low_bits) as u64))
    };
    let base = addr(base, 0)?;
    let max_offset = addr(max, 3)?;
    Some((end, EnhancedAllocationEntry {
        entry_size: f8(h, 0, 2),
        bar_equivalent_indicator: m_bar_equivalent_indicator(f8(h, 4, 7)),
        primary_properties: m_resource_definition(f8(h, 8, 15)),
        secondary_properties: m_resource_definition(f8(h, 16, 23)),
        writable: bit(h, 30),
        enable: bit(h, 31),
        base,
        max_offset,
    }))
}
/// The entries of a table of `count` entries: each starts where the previous one says it ends;
/// the list ends at the first entry that does not fit
pub fn entries(mut d: &[u8], count: u8) -> Vec<EnhancedAllocationEntry> {
    let mut out = vec![];
    for _ in 0..count {
        let Some((read, e)) = entry(d) else { break };
        let step = if cfg!(feature = "ea_real") { read } else { (e.entry_size as usize + 1) * 4 };
        if step > d.len() { break; }
        d = &d[step..];
        out.push(e);
    }
    out
}
pub fn expect(d: &[u8], header: &Header) -> Result<(u8, Option<(u8, u8)>, Vec<EnhancedAllocationEntry>), EnhancedAllocationError> {
    if d.len() < 2 { return Err(EnhancedAllocationError::NumEntries); }
    let n = d[0] & 0x3f;
    if matches!(header.header_type, HeaderType::Bridge(_)) {
        if d.len() < 6 { return Err(EnhancedAllocationError::Type1SecondDw); }
        return Ok((n, Some((d[2], d[3])), entries(&d[6..], n)));
    }
    Ok((n, None, entries(&d[2..], n)))
}
pub fn check(d: &[u8], header: &Header) -> Verdict {
    let real = EnhancedAllocation::try_new(d, header).map(|e| {
        let mut it = e.entries.clone();
        let mut list: Vec<_> = it.by_ref().take(100).collect();
        if it.next().is_some() || it.next().is_some() { list.clear(); }
        let second = e.type_1_second_dw.as_ref().map(|s| (s.fixed_secondary_bus_number, s.fixed_subordinate_bus_number));
        (e.num_entries, second, list)
    });
    cmp_err(real, expect(d, header))
}
pub fn walk(d: &[u8], header: &Header) {
    let r = EnhancedAllocation::try_new(d, header);
    sink(&r);
    if let Ok(e) = r { for x in e.entries.take(100) { sink(&x); } }
}
}

