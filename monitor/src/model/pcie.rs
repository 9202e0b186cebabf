//! Reference decoding of the PCI Express capability (PCIe base spec 7.5.3).
//! `d` starts right after the two-byte capability header.
use super::*;
pub use pcics::capabilities::pci_express::*;

pub fn max_size(v: u8) -> MaxSize {
    use MaxSize::*;
    [B128, B256, B512, B1024, B2048, B4096, Reserved0, Reserved1][v as usize]
}
pub fn power_limit(value: u8, scale: u8) -> SlotPowerLimit {
    SlotPowerLimit {
        value,
        scale: [1.0, 0.1, 0.01, 0.001][scale as usize],
    }
}
pub fn speed(v: u8) -> LinkSpeed {
    use LinkSpeed::*;
    match v {
        1 => Rate2GTps,
        2 => Rate5GTps,
        3 => Rate8GTps,
        4 => Rate16GTps,
        5 => Rate32GTps,
        6 => Rate64GTps,
        7 => RateRsvdp,
        v => Reserved(v),
    }
}
pub fn width(v: u8) -> LinkWidth {
    use LinkWidth::*;
    match v {
        1 => X1,
        2 => X2,
        4 => X4,
        8 => X8,
        12 => X12,
        16 => X16,
        32 => X32,
        v => Reserved(v),
    }
}
pub fn aspm(v: u8) -> ActiveStatePowerManagement {
    use ActiveStatePowerManagement::*;
    [NoAspm, L0s, L1, L0sAndL1][v as usize].clone()
}
pub fn dev_caps(v: u32) -> DeviceCapabilities {
    let r = Reg(v as u64);
    DeviceCapabilities {
        max_payload_size_supported: max_size(r.b(2, 0)),
        phantom_functions_supported: {
            use PhantomFunctionsSupported::*;
            [NoBits, MostSignificantBit, TwoMostSignificantBits, AllBits][r.f(4, 3) as usize]
        },
        extended_tag_field_supported: if r.t(5) {
            ExtendedTagFieldSupported::Eight
        } else {
            ExtendedTagFieldSupported::Five
        },
        endpoint_l0s_acceptable_latency: {
            use EndpointL0sAcceptableLatency::*;
            [Max64ns, Max128ns, Max256ns, Max512ns, Max1us, Max2us, Max4us, NoLimit]
                [r.f(8, 6) as usize]
        },
        endpoint_l1_acceptable_latency: {
            use EndpointL1AcceptableLatency::*;
            [Max1us, Max2us, Max4us, Max8us, Max16us, Max32us, Max64us, NoLimit]
                [r.f(11, 9) as usize]
        },
        attention_button_present: r.t(12),
        attention_indicator_present: r.t(13),
        power_indicator_present: r.t(14),
        role_based_error_reporting: r.t(15),
        captured_slot_power_limit: power_limit(r.b(25, 18), r.b(27, 26)),
        function_level_reset_capability: r.t(28),
    }
}
pub fn dev_ctrl(v: u16) -> DeviceControl {
    let r = Reg(v as u64);
    DeviceControl {
        correctable_error_reporting_enable: r.t(0),
        non_fatal_error_reporting_enable: r.t(1),
        fatal_error_reporting_enable: r.t(2),
        unsupported_request_reporting_enable: r.t(3),
        enable_relaxed_ordering: r.t(4),
        max_payload_size: max_size(r.b(7, 5)),
        extended_tag_field_enable: r.t(8),
        phantom_functions_enable: r.t(9),
        aux_power_pm_enable: r.t(10),
        enable_no_snoop: r.t(11),
        max_read_request_size: max_size(r.b(14, 12)),
        bcre_or_flreset: r.t(15),
    }
}
pub fn dev_status(v: u16) -> DeviceStatus {
    let r = Reg(v as u64);
    DeviceStatus {
        correctable_error_detected: r.t(0),
        non_fatal_error_detected: r.t(1),
        fatal_error_detected: r.t(2),
        unsupported_request_detected: r.t(3),
        aux_power_detected: r.t(4),
        transactions_pending: r.t(5),
    }
}
pub fn l0s(v: u8) -> L0sExitLatency {
    use L0sExitLatency::*;
    [
        Lt64ns,
        Ge64nsAndLt128ns,
        Ge128nsAndLt256ns,
        Ge256nsAndLt512ns,
        Ge512nsAndLt1us,
        Ge1usAndLt2us,
        Ge2usAndLt4us,
        Gt4ns,
    ][v as usize]
}
pub fn l1(v: u8) -> L1ExitLatency {
    use L1ExitLatency::*;
    [
        Lt1us,
        Ge1usAndLt2us,
        Ge2usAndLt4us,
        Ge4usAndLt8us,
        Ge8usAndLt16us,
        Ge16usAndLt32us,
        Ge32usAndLt64us,
        Gt64ns,
    ][v as usize]
}
pub fn link_caps(v: u32) -> LinkCapabilities {
    let r = Reg(v as u64);
    LinkCapabilities {
        max_link_speed: speed(r.b(3, 0)),
        maximum_link_width: width(r.b(9, 4)),
        active_state_power_management_support: aspm(r.b(11, 10)),
        l0s_exit_latency: l0s(r.b(14, 12)),
        l1_exit_latency: l1(r.b(17, 15)),
        clock_power_management: r.t(18),
        surprise_down_error_reporting_capable: r.t(19),
        data_link_layer_link_active_reporting_capable: r.t(20),
        link_bandwidth_notification_capability: r.t(21),
        aspm_optionality_compliance: r.t(22),
        port_number: r.b(31, 24),
    }
}
pub fn link_ctrl(v: u16) -> LinkControl {
    let r = Reg(v as u64);
    LinkControl {
        active_state_power_management_control: aspm(r.b(1, 0)),
        read_completion_boundary: if r.t(3) {
            ReadCompletionBoundary::B128
        } else {
            ReadCompletionBoundary::B64
        },
        link_disable: r.t(4),
        retrain_link: r.t(5),
        common_clock_configuration: r.t(6),
        extended_synch: r.t(7),
        enable_clock_power_management: r.t(8),
        hardware_autonomous_width_disable: r.t(9),
        link_bandwidth_management_interrupt_enable: r.t(10),
        link_autonomous_bandwidth_interrupt_enable: r.t(11),
    }
}
pub fn link_status(v: u16) -> LinkStatus {
    let r = Reg(v as u64);
    LinkStatus {
        current_link_speed: speed(r.b(3, 0)),
        negotiated_link_width: width(r.b(9, 4)),
        link_training_error: r.t(10),
        link_training: r.t(11),
        slot_clock_configuration: r.t(12),
        data_link_layer_link_active: r.t(13),
        link_bandwidth_management_status: r.t(14),
        link_autonomous_bandwidth_status: r.t(15),
    }
}
pub fn slot_caps(v: u32) -> SlotCapabilities {
    let r = Reg(v as u64);
    SlotCapabilities {
        attention_button_present: r.t(0),
        power_controller_present: r.t(1),
        mrl_sensor_present: r.t(2),
        attention_indicator_present: r.t(3),
        power_indicator_present: r.t(4),
        hot_plug_surprise: r.t(5),
        hot_plug_capable: r.t(6),
        slot_power_limit: power_limit(r.b(14, 7), r.b(16, 15)),
        electromechanical_interlock_present: r.t(17),
        no_command_completed_support: r.t(18),
        physical_slot_number: r.w(31, 19),
    }
}
pub fn slot_ctrl(v: u16) -> SlotControl {
    let r = Reg(v as u64);
    let ind = |v: u64| {
        use IndicatorControl::*;
        [Reserved, On, Blink, Off][v as usize].clone()
    };
    SlotControl {
        attention_button_pressed_enable: r.t(0),
        power_fault_detected_enable: r.t(1),
        mrl_sensor_changed_enable: r.t(2),
        presence_detect_changed_enable: r.t(3),
        command_completed_interrupt_enable: r.t(4),
        hot_plug_interrupt_enable: r.t(5),
        attention_indicator_control: ind(r.f(7, 6)),
        power_indicator_control: ind(r.f(9, 8)),
        power_controller_control: r.t(10),
        electromechanical_interlock_control: r.t(11),
        data_link_layer_state_changed_enable: r.t(12),
    }
}
pub fn slot_status(v: u16) -> SlotStatus {
    let r = Reg(v as u64);
    SlotStatus {
        attention_button_pressed: r.t(0),
        power_fault_detected: r.t(1),
        mrl_sensor_changed: r.t(2),
        presence_detect_changed: r.t(3),
        command_completed: r.t(4),
        mrl_sensor_state: r.t(5),
        presence_detect_state: r.t(6),
        electromechanical_interlock_status: r.t(7),
        data_link_layer_state_changed: r.t(8),
    }
}
pub fn root(d: &[u8]) -> Option<Root> {
    if d.len() < 8 {
        return None;
    }
    let (c, p, s) = (r16(d, 0), r16(d, 2), r32(d, 4));
    Some(Root {
        control: RootControl {
            system_error_on_correctable_error_enable: c.t(0),
            system_error_on_non_fatal_error_enable: c.t(1),
            system_error_on_fatal_error_enable: c.t(2),
            pme_interrupt_enable: c.t(3),
            crs_software_visibility_enable: c.t(4),
        },
        capabilities: RootCapabilities {
            crs_software_visibility: p.t(0),
        },
        status: RootStatus {
            pme_requester_id: s.w(15, 0),
            pme_status: s.t(16),
            pme_pending: s.t(17),
        },
    })
}
pub fn device_2(d: &[u8]) -> Option<Device2> {
    if d.len() < 8 {
        return None;
    }
    let (p, c) = (r32(d, 0), r16(d, 4));
    Some(Device2 {
        capabilities: DeviceCapabilities2 {
            completion_timeout_ranges_supported: {
                use CompletionTimeoutRanges::*;
                match p.b(3, 0) {
                    0 => NotSupported,
                    1 => RangeA,
                    2 => RangeB,
                    3 => RangesAB,
                    6 => RangesBC,
                    7 => RangesABC,
                    14 => RangesBCD,
                    15 => RangesABCD,
                    v => Reserved(v),
                }
            },
            completion_timeout_disable_supported: p.t(4),
            ari_forwarding_supported: p.t(5),
            atomic_op_routing_supported: p.t(6),
            u32_atomicop_completer_supported: p.t(7),
            u64_atomicop_completer_supported: p.t(8),
            u128_cas_completer_supported: p.t(9),
            no_ro_enabled_pr_pr_passing: p.t(10),
            ltr_mechanism_supported: p.t(11),
            tph_completer_supported: {
                use TphCompleter::*;
                [NotSupported, Tph, Reserved, TphAndExtendedTph][p.f(13, 12) as usize].clone()
            },
            ln_system_cls: {
                use LnSystemCls::*;
                [NotSupported, Cachelines64Byte, Cachelines128Byte, Reserved]
                    [p.f(15, 14) as usize]
                    .clone()
            },
            support_10bit_tag_completer: p.t(16),
            support_10bit_tag_requester: p.t(17),
            obff_supported: {
                use Obff::*;
                [NotSupported, Message, Wake, WakeAndMessage][p.f(19, 18) as usize].clone()
            },
            extended_fmt_field_supported: p.t(20),
            end_end_tlp_prefix_supported: p.t(21),
            max_end_end_tlp_prefixes: {
                use MaxEndEndTlpPrefixes::*;
                [Max4, Max1, Max2, Max3][p.f(23, 22) as usize]
            },
            emergency_power_reduction_supported: {
                use EmergencyPowerReduction::*;
                [NotSupported, DeviceSpecific, FormFactorOrDeviceSpecific, Reserved]
                    [p.f(25, 24) as usize]
                    .clone()
            },
            emergency_power_reduction_initialization_required: p.t(26),
            frs_supported: p.t(31),
        },
        control: DeviceControl2 {
            completion_timeout_value: {
                use CompletionTimeoutValue::*;
                match c.b(3, 0) {
                    0 => DefaultRange50usTo50ms,
                    1 => RangeA50usTo100us,
                    2 => RangeA1msTo10ms,
                    5 => RangeB16msTo55mss,
                    6 => RangeB65msTo210ms,
                    9 => RangeC260msTo900ms,
                    10 => RangeC1000msTo3500ms,
                    13 => RangeD4sTo13s,
                    14 => RangeD17sTo64s,
                    v => Reserved(v),
                }
            },
            completion_timeout_disable: c.t(4),
            ari_forwarding_enable: c.t(5),
            atomic_op_requester_enable: c.t(6),
            atomic_op_egress_blocking: c.t(7),
            ido_request_enable: c.t(8),
            ido_completion_enable: c.t(9),
            ltr_mechanism_enable: c.t(10),
            emergency_power_reduction_request: c.t(11),
            enable_10bit_tag_requester: c.t(12),
            obff_enable: {
                use ObffEnable::*;
                [Disabled, MessageSignalingA, MessageSignalingB, WakeSignaling]
                    [c.f(14, 13) as usize]
                    .clone()
            },
            end_end_tlp_prefix_blocking: if c.t(15) {
                EndEndTlpPrefixBlocking::ForwardingBlocked
            } else {
                EndEndTlpPrefixBlocking::ForwardingEnabled
            },
        },
        status: DeviceStatus2 {},
    })
}
pub fn speeds(v: u8) -> SupportedLinkSpeedsVector {
    let r = Reg(v as u64);
    SupportedLinkSpeedsVector {
        speed_2_5_gtps: r.t(0),
        speed_5_0_gtps: r.t(1),
        speed_8_0_gtps: r.t(2),
        speed_16_0_gtps: r.t(3),
        speed_32_0_gtps: r.t(4),
        speed_64_0_gtps: r.t(5),
        reserved: r.t(6),
    }
}
pub fn de_emphasis(b: bool) -> DeEmphasis {
    if b {
        DeEmphasis::Minus3_5dB
    } else {
        DeEmphasis::Minus6dB
    }
}
pub fn link_2(d: &[u8]) -> Option<Link2> {
    if d.len() < 8 {
        return None;
    }
    let (p, c, s) = (r32(d, 0), r16(d, 4), r16(d, 6));
    Some(Link2 {
        capabilities: LinkCapabilities2 {
            supported_link_speeds_vector: speeds(p.b(7, 1)),
            crosslink_supported: p.t(8),
            lower_skp_os_generation_supported_speeds_vector: speeds(p.b(15, 9)),
            lower_skp_os_reception_supported_speeds_vector: speeds(p.b(22, 16)),
            retimer_presence_detect_supported: p.t(23),
            two_retimers_presence_detect_supported: p.t(24),
            drs_supported: p.t(31),
        },
        control: LinkControl2 {
            target_link_speed: speed(c.b(3, 0)),
            enter_compliance: c.t(4),
            hardware_autonomous_speed_disable: c.t(5),
            selectable_de_emphasis: de_emphasis(c.t(6)),
            transmit_margin: TransmitMargin(c.b(9, 7)),
            enter_modified_compliance: c.t(10),
            compliance_sos: c.t(11),
            compliance_preset_or_de_emphasis: CompliancePresetOrDeEmphasis(c.b(15, 12)),
        },
        status: LinkStatus2 {
            current_de_emphasis_level: de_emphasis(s.t(0)),
            equalization_complete: s.t(1),
            equalization_phase_1_successful: s.t(2),
            equalization_phase_2_successful: s.t(3),
            equalization_phase_3_successful: s.t(4),
            link_equalization_request: s.t(5),
            retimer_presence_detected: s.t(6),
            two_retimers_presence_detected: s.t(7),
            crosslink_resolution: {
                use CrosslinkResolution::*;
                [NotSupported, UpstreamPort, DownstreamPort, NotCompleted][s.f(9, 8) as usize]
            },
            downstream_component_presence: {
                use DownstreamComponentPresence::*;
                match s.b(14, 12) {
                    0 => DownNotDetermined,
                    1 => DownNotPresent,
                    2 => DownPresent,
                    4 => UpPresent,
                    5 => UpPresentAndDrsReceived,
                    v => Reserved(v),
                }
            },
            drs_message_received: s.t(15),
        },
    })
}
pub fn slot_2(d: &[u8]) -> Option<Slot2> {
    (d.len() >= 8).then(|| Slot2 {
        capabilities: SlotCapabilities2 {},
        control: SlotControl2 {},
        status: SlotStatus2 {},
    })
}
pub fn transmitter_preset(v: u8) -> TransmitterPreset {
    use TransmitterPreset::*;
    match v {
        0 => P0,
        1 => P1,
        2 => P2,
        3 => P3,
        4 => P4,
        5 => P5,
        6 => P6,
        7 => P7,
        8 => P8,
        9 => P9,
        10 => P10,
        v => Reserved(v),
    }
}
pub fn receiver_preset_hint(v: u8) -> ReceiverPresetHint {
    use ReceiverPresetHint::*;
    match v {
        0 => Minus6dB,
        1 => Minus7dB,
        2 => Minus8dB,
        3 => Minus9dB,
        4 => Minus10dB,
        5 => Minus11dB,
        6 => Minus12dB,
        _ => Reserved,
    }
}

pub fn pci_express(d: &[u8]) -> Result<PciExpress, PciExpressError> {
    if d.len() < 26 {
        return Err(PciExpressError::RequiredBytesSlice);
    }
    let c = r16(d, 0);
    let version = c.b(3, 0);
    let at = |o: usize| d.get(o..).unwrap_or(&[]);
    let link = Link {
        capabilities: link_caps(u32at(d, 10)),
        control: link_ctrl(u16at(d, 14)),
        status: link_status(u16at(d, 16)),
    };
    let slot = Slot {
        capabilities: slot_caps(u32at(d, 18)),
        control: slot_ctrl(u16at(d, 22)),
        status: slot_status(u16at(d, 24)),
    };
    let root = root(at(26));
    let v2 = version > 1;
    let (dev2, link_2, slot_2) = if v2 {
        (device_2(at(34)), link_2(at(42)), slot_2(at(50)))
    } else {
        (None, None, None)
    };
    use DeviceType as T;
    let device_type = match c.b(7, 4) {
        0 => T::Endpoint { link, link_2 },
        1 => T::LegacyEndpoint { link, link_2 },
        4 => T::RootPort {
            link,
            link_2,
            slot,
            slot_2,
            root: root.ok_or(PciExpressError::RootBytesSlice)?,
        },
        5 => T::UpstreamPort { link, link_2 },
        6 => T::DownstreamPort { link, link_2, slot, slot_2 },
        7 => T::PcieToPciBridge { link, link_2 },
        8 => T::PciToPcieBridge { link, link_2, slot, slot_2 },
        9 => T::RootComplexIntegratedEndpoint,
        10 => T::RootComplexEventCollector {
            root: root.ok_or(PciExpressError::RootBytesSlice)?,
        },
        id => T::Reserved { id, link, link_2, slot, slot_2, root },
    };
    Ok(PciExpress {
        version,
        device_type,
        slot_implemented: c.t(8),
        interrupt_message_number: c.b(13, 9),
        tcs_routing_support: c.t(14),
        device: Device {
            capabilities: dev_caps(u32at(d, 2)),
            control: dev_ctrl(u16at(d, 6)),
            status: dev_status(u16at(d, 8)),
        },
        device_2: dev2,
    })
}
