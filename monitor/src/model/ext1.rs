//! Reference decoding of extended capabilities, part 1.
//! `d` always starts at the capability's own 4-byte header, so offsets are the ones printed in
//! the PCI Express Base Specification. `None` = the registers do not fit in `d`.
use super::*;
use pcics::extended_capabilities::*;

fn need(d: &[u8], n: usize) -> Option<()> {
    if d.len() >= n {
        Some(())
    } else {
        None
    }
}

pub mod acs {
    use super::*;
    pub use access_control_services::*;
    /// 6.12 / 7.7.7: capability register at 04h, control at 06h, egress control vector at 08h.
    pub fn regs(d: &[u8]) -> Option<(AcsCapability, AcsControl)> {
        need(d, 8)?;
        let (c, k) = (r16(d, 4), r16(d, 6));
        Some((
            AcsCapability {
                acs_source_validation: c.t(0),
                acs_translation_blocking: c.t(1),
                acs_p2p_request_redirect: c.t(2),
                acs_p2p_completion_redirect: c.t(3),
                acs_upstream_forwarding: c.t(4),
                acs_p2p_egress_control: c.t(5),
                acs_direct_translated_p2p: c.t(6),
                egress_control_vector_size: c.b(15, 8),
            },
            AcsControl {
                acs_source_validation_enable: k.t(0),
                acs_translation_blocking_enable: k.t(1),
                acs_p2p_request_redirect_enable: k.t(2),
                acs_p2p_completion_redirect_enable: k.t(3),
                acs_upstream_forwarding_enable: k.t(4),
                acs_p2p_egress_control_enable: k.t(5),
                acs_direct_translated_p2p_enable: k.t(6),
            },
        ))
    }
    /// The bits of the egress control vector, when its whole DWORDs are present.
    pub fn vector(d: &[u8]) -> Option<Vec<bool>> {
        need(d, 8)?;
        // 00h stands for 256 bits; without P2P Egress Control the field is undefined
        let n = match d[5] {
            0 if r16(d, 4).t(5) => 256,
            n => n as usize,
        };
        let bytes = (n + 31) / 32 * 4;
        let v = d.get(8..8 + bytes)?;
        Some((0..n).map(|i| v[i / 8] >> (i % 8) & 1 == 1).collect())
    }
}

pub fn ats(d: &[u8]) -> Option<AddressTranslationServices> {
    use address_translation_services::*;
    need(d, 8)?;
    let (c, k) = (r16(d, 4), r16(d, 6));
    Some(AddressTranslationServices {
        ats_capability: AtsCapability {
            invalidate_queue_depth: c.b(4, 0),
            page_aligned_request: c.t(5),
            global_invalidate_supported: c.t(6),
        },
        ats_control: AtsControl { smallest_translation_unit: k.b(4, 0), enable: k.t(15) },
    })
}

pub fn ari(d: &[u8]) -> Option<AlternativeRoutingIdInterpretation> {
    use alternative_routing_id_interpolation::*;
    need(d, 8)?;
    let (c, k) = (r16(d, 4), r16(d, 6));
    Some(AlternativeRoutingIdInterpretation {
        ari_capability: AriCapability {
            mfvc_function_groups_capability: c.t(0),
            acs_function_groups_capability: c.t(1),
            next_function_number: c.b(15, 8),
        },
        ari_control: AriControl {
            mfvc_function_groups_enable: k.t(0),
            acs_function_groups_enable: k.t(1),
            function_group: k.b(6, 4),
        },
    })
}

pub fn cac(d: &[u8]) -> Option<ConfigurationAccessCorrelation> {
    need(d, 8)?;
    Some(ConfigurationAccessCorrelation { device_correlation: u32at(d, 4) })
}

pub fn dsn(d: &[u8]) -> Option<DeviceSerialNumber> {
    need(d, 12)?;
    Some(DeviceSerialNumber { lower_dword: u32at(d, 4), upper_dword: u32at(d, 8) })
}

pub mod aer {
    use super::*;
    pub use advanced_error_reporting::*;
    fn unc(r: Reg) -> UncorrectableError {
        UncorrectableError {
            link_training_error: r.t(0),
            data_link_protocol_error_status: r.t(4),
            surprise_down_error_status: r.t(5),
            poisoned_tlp_received_status: r.t(12),
            flow_control_protocol_error_status: r.t(13),
            completion_timeout_status: r.t(14),
            completer_abort_status: r.t(15),
            unexpected_completion_status: r.t(16),
            receiver_overflow_status: r.t(17),
            malformed_tlp_status: r.t(18),
            ecrc_error_status: r.t(19),
            unsupported_request_error_status: r.t(20),
            acs_violation_status: r.t(21),
            uncorrectable_internal_error_status: r.t(22),
            mc_blocked_tlp_status: r.t(23),
            atomicop_egress_blocked_status: r.t(24),
            tlp_prefix_blocked_error_status: r.t(25),
            poisoned_tlp_egress_blocked_status: r.t(26),
        }
    }
    fn cor(r: Reg) -> CorrectableError {
        CorrectableError {
            receiver_error_status: r.t(0),
            bad_tlp_status: r.t(6),
            bad_dllp_status: r.t(7),
            replay_num_rollover_status: r.t(8),
            replay_timer_timeout_status: r.t(12),
            advisory_non_fatal_error_status: r.t(13),
            corrected_internal_error_status: r.t(14),
            header_log_overflow_status: r.t(15),
        }
    }
    pub fn quad(d: &[u8], o: usize) -> [u32; 4] {
        [u32at(d, o), u32at(d, o + 4), u32at(d, o + 8), u32at(d, o + 12)]
    }
    pub fn decode(d: &[u8]) -> Result<AdvancedErrorReporting, AdvancedErrorReportingError> {
        if d.len() < 0x2c {
            return Err(AdvancedErrorReportingError::Common);
        }
        let k = r32(d, 0x18);
        let root = d.len() >= 0x38;
        let tlp_prefix_log = if k.t(11) {
            if d.len() < 0x48 {
                return Err(AdvancedErrorReportingError::TlpPrefixLog);
            }
            Some(TlpPrefixLog(quad(d, 0x38)))
        } else {
            None
        };
        Ok(AdvancedErrorReporting {
            uncorrectable_error_status: unc(r32(d, 0x04)),
            uncorrectable_error_mask: unc(r32(d, 0x08)),
            uncorrectable_error_severity: unc(r32(d, 0x0c)),
            correctable_error_status: cor(r32(d, 0x10)),
            correctable_error_mask: cor(r32(d, 0x14)),
            advanced_error_capabilities_and_control: AdvancedErrorCapabilitiesAndControl {
                first_error_pointer: k.b(4, 0),
                ecrc_generation_capable: k.t(5),
                ecrc_generation_enable: k.t(6),
                ecrc_check_capable: k.t(7),
                ecrc_check_enable: k.t(8),
                multiple_header_recording_capable: k.t(9),
                multiple_header_recording_enable: k.t(10),
                tlp_prefix_log_present: k.t(11),
                completion_timeout_prefix_or_header_log_capable: k.t(12),
            },
            header_log: HeaderLog(quad(d, 0x1c)),
            root_error_command: root.then(|| {
                let r = r32(d, 0x2c);
                RootErrorCommand {
                    correctable_error_reporting_enable: r.t(0),
                    non_fatal_error_reporting_enable: r.t(1),
                    fatal_error_reporting_enable: r.t(2),
                }
            }),
            root_error_status: root.then(|| {
                let r = r32(d, 0x30);
                RootErrorStatus {
                    err_cor_received: r.t(0),
                    multiple_err_cor_received: r.t(1),
                    err_fatal_or_nonfatal_received: r.t(2),
                    multiple_err_fatal_or_nonfatal_received: r.t(3),
                    first_uncorrectable_fatal: r.t(4),
                    non_fatal_error_messages_received: r.t(5),
                    fatal_error_messages_received: r.t(6),
                    advanced_error_interrupt_message_number: r.b(31, 27),
                }
            }),
            error_source_identification: root.then(|| ErrorSourceIdentification {
                err_cor_source_identification: u16at(d, 0x34),
                err_fatal_or_nonfatal_source_identification: u16at(d, 0x36),
            }),
            tlp_prefix_log,
        })
    }
}

pub mod dpc {
    use super::*;
    pub use downstream_port_containment::*;
    fn pio(r: Reg) -> RpPio {
        RpPio {
            cfg_ur_cpl: r.t(0),
            cfg_ca_cpl: r.t(1),
            cfg_cto: r.t(2),
            io_ur_cpl: r.t(8),
            io_ca_cpl: r.t(9),
            io_cto: r.t(10),
            mem_ur_cpl: r.t(16),
            mem_ca_cpl: r.t(17),
            mem_cto: r.t(18),
        }
    }
    pub fn decode(d: &[u8]) -> Result<DownstreamPortContainment, DownstreamPortContainmentError> {
        use DownstreamPortContainmentError as E;
        if d.len() < 0x0c {
            return Err(E::Mandatory);
        }
        let (c, k, s) = (r16(d, 4), r16(d, 6), r16(d, 8));
        let log = c.b(11, 8);
        let rp_extensions = if c.t(5) {
            if d.len() < 0x30 {
                return Err(E::RpExtensions);
            }
            let imp = if log >= 5 {
                if d.len() < 0x34 {
                    return Err(E::RpPioImpspecLog);
                }
                Some(u32at(d, 0x30))
            } else {
                None
            };
            let prefix = if log > 5 {
                let mut out = [0u32; 4];
                for i in 0..(log as usize - 5).min(4) {
                    if d.len() < 0x38 + 4 * i {
                        return Err(E::RpPioTlpPrefixLog { number: i });
                    }
                    out[i] = u32at(d, 0x34 + 4 * i);
                }
                Some(TlpPrefixLog(out))
            } else {
                None
            };
            Some(RpExtensions {
                rp_pio_status: pio(r32(d, 0x0c)),
                rp_pio_mask: pio(r32(d, 0x10)),
                rp_pio_severity: pio(r32(d, 0x14)),
                rp_pio_syserr: pio(r32(d, 0x18)),
                rp_pio_exception: pio(r32(d, 0x1c)),
                rp_pio_header_log: HeaderLog(aer::quad(d, 0x20)),
                rp_pio_impspec_log: imp,
                rp_pio_tlp_prefix_log: prefix,
            })
        } else {
            None
        };
        use DpcTriggerReason as T;
        Ok(DownstreamPortContainment {
            dpc_capability: DpcCapability {
                dpc_interrupt_message_number: c.b(4, 0),
                rp_extensions_for_dpc: c.t(5),
                poisoned_tlp_egress_blocking_supported: c.t(6),
                dpc_software_triggering_supported: c.t(7),
                rp_pio_log_size: log,
                dl_active_err_cor_signaling_supported: c.t(12),
            },
            dpc_control: DpcControl {
                dpc_trigger_enable: [
                    DpcTrigger::Disabled,
                    DpcTrigger::ErrFatalMessage,
                    DpcTrigger::ErrNonFatalMessage,
                    DpcTrigger::Reserved,
                ][k.f(1, 0) as usize],
                dpc_completion_control: k.t(2),
                dpc_interrupt_enable: k.t(3),
                dpc_err_cor_enable: k.t(4),
                poisoned_tlp_egress_blocking_enable: k.t(5),
                dpc_software_trigger: k.t(6),
                dl_active_err_cor_enable: k.t(7),
            },
            dpc_status: DpcStatus {
                dpc_trigger_status: s.t(0),
                dpc_trigger_reason: match (s.f(2, 1), s.b(6, 5)) {
                    (0, _) => T::UnmaskedUncorrectableError,
                    (1, _) => T::ReceivingAnErrNonFatal,
                    (2, _) => T::ReceivingAnErrFatal,
                    (_, 0) => T::RpPioError,
                    (_, 1) => T::DpcSoftwareTriggerBit,
                    (_, v) => T::Reserved(v),
                },
                dpc_interrupt_status: s.t(3),
                dpc_rp_busy: s.t(4),
                rp_pio_first_error_pointer: s.b(12, 8),
            },
            dpc_error_source_id: u16at(d, 0x0a),
            rp_extensions,
        })
    }
}

pub mod dpa {
    use super::*;
    pub use dynamic_power_allocation::*;
    pub fn decode(d: &[u8]) -> Result<DynamicPowerAllocation<'_>, DynamicPowerAllocationError> {
        if d.len() < 0x10 {
            return Err(DynamicPowerAllocationError::Mandatory);
        }
        let (c, s, k) = (r32(d, 4), r16(d, 0x0c), r16(d, 0x0e));
        let n = c.f(4, 0) as usize + 1;
        if d.len() < 0x10 + n {
            return Err(DynamicPowerAllocationError::DpaAllocationArray {
                expected: n,
                found: d.len() - 0x10,
            });
        }
        Ok(DynamicPowerAllocation {
            dpa_capability: DpaCapability {
                substate_max: c.b(4, 0),
                transition_latency_unit: match c.f(9, 8) {
                    0 => TransitionLatencyUnit::Unit1ms,
                    1 => TransitionLatencyUnit::Unit10ms,
                    2 => TransitionLatencyUnit::Unit100ms,
                    _ => TransitionLatencyUnit::Reserved,
                },
                power_allocation_scale: match c.f(13, 12) {
                    0 => PowerAllocationScale::Mul10,
                    1 => PowerAllocationScale::Mul1_0,
                    2 => PowerAllocationScale::Mul0_1,
                    _ => PowerAllocationScale::Mul0_01,
                },
                transition_latency_value_0: c.b(23, 16),
                transition_latency_value_1: c.b(31, 24),
            },
            dpa_latency_indicator: u32at(d, 8),
            dpa_status: DpaStatus { substate_status: s.b(4, 0), substate_control_enabled: s.t(8) },
            dpa_control: DpaControl { substate_control: k.b(4, 0) },
            dpa_power_allocation_array: DpaPowerAllocationArray(&d[0x10..0x10 + n]),
        })
    }
}

pub fn frs(d: &[u8]) -> Option<FrsQueuing> {
    use frs_queuing::*;
    need(d, 0x10)?;
    let (c, s, k, q) = (r32(d, 4), r16(d, 8), r16(d, 0xa), r32(d, 0xc));
    Some(FrsQueuing {
        frs_queuing_capability: FrsQueuingCapability {
            frs_queue_max_depth: c.w(11, 0),
            frs_interrupt_message_number: c.b(20, 16),
        },
        frs_queuing_status: FrsQueuingStatus {
            frs_message_received: s.t(0),
            frs_message_overflow: s.t(1),
        },
        frs_queuing_control: FrsQueuingControl { frs_interrupt_enable: k.t(0) },
        frs_message_queue: FrsMessageQueue {
            frs_message_queue_function_id: q.w(15, 0),
            frs_message_queue_reason: q.b(19, 16),
            frs_message_queue_depth: q.w(31, 20),
        },
    })
}

pub mod l1pm {
    use super::*;
    pub use l1_pm_substates::*;
    fn scale(n: u64) -> PortTPowerOnScale {
        match n {
            0 => PortTPowerOnScale::Time2us,
            1 => PortTPowerOnScale::Time10us,
            2 => PortTPowerOnScale::Time100us,
            _ => PortTPowerOnScale::Reserved,
        }
    }
    pub fn decode(d: &[u8]) -> Option<L1PmSubstates> {
        need(d, 0x10)?;
        let (c, k, m) = (r32(d, 4), r32(d, 8), r32(d, 0xc));
        Some(L1PmSubstates {
            l1_pm_substates_capabilities: L1PmSubstatesCapabilities {
                pci_pm_l1_2_supported: c.t(0),
                pci_pm_l1_1_supported: c.t(1),
                aspm_l1_2_supported: c.t(2),
                aspm_l1_1_supported: c.t(3),
                l1_pm_substates_supported: c.t(4),
                port_common_mode_restore_time: c.b(15, 8),
                port_t_power_on: PortTPowerOn { value: c.b(23, 19), scale: scale(c.f(17, 16)) },
            },
            l1_pm_substates_control_1: L1PmSubstatesControl1 {
                pci_pm_l1_2_enable: k.t(0),
                pci_pm_l1_1_enable: k.t(1),
                aspm_l1_2_enable: k.t(2),
                aspm_l1_1_enable: k.t(3),
                common_mode_restore_time: k.b(15, 8),
                ltr_l1_2_threshold: MaxLatency { value: k.w(25, 16), scale: k.b(31, 29) },
            },
            l1_pm_substates_control_2: L1PmSubstatesControl2 {
                t_power_on: PortTPowerOn { value: m.b(7, 3), scale: scale(m.f(1, 0)) },
            },
        })
    }
}

pub fn ltr(d: &[u8]) -> Option<LatencyToleranceReporting> {
    use latency_tolerance_reporting::*;
    need(d, 8)?;
    let f = |r: Reg| MaxLatency { value: r.w(9, 0), scale: r.b(12, 10) };
    Some(LatencyToleranceReporting {
        max_snoop_latency: f(r16(d, 4)),
        max_no_snoop_latency: f(r16(d, 6)),
    })
}

pub fn lnr(d: &[u8]) -> Option<LnRequester> {
    use ln_requester::*;
    need(d, 8)?;
    let (c, k) = (r16(d, 4), r16(d, 6));
    Some(LnRequester {
        lnr_capability: LnrCapability {
            lnr_64_supported: c.t(0),
            lnr_128_supported: c.t(1),
            lnr_registration_max: c.b(12, 8),
        },
        lnr_control: LnrControl {
            lnr_enable: k.t(0),
            lnr_cls: k.t(1),
            lnr_registration_limit: k.b(12, 8),
        },
    })
}

pub fn multicast_(d: &[u8]) -> Option<Multicast> {
    use multicast::*;
    need(d, 0x28)?;
    let (c, k, b) = (r16(d, 4), r16(d, 6), r64(d, 8));
    Some(Multicast {
        multicast_capability: MulticastCapability {
            mc_max_group: c.b(5, 0),
            mc_window_size_requested: c.b(13, 8),
            mc_ecrc_regeneration_supported: c.t(15),
        },
        multicast_control: MulticastControl { mc_num_group: k.b(5, 0), mc_enable: k.t(15) },
        mc_base_address: McBaseAddress {
            mc_index_position: b.b(5, 0),
            mc_base_address: b.0 & !0xfff,
        },
        mc_receive: u64at(d, 0x10),
        mc_block_all: u64at(d, 0x18),
        mc_block_untranslated: u64at(d, 0x20),
        mc_overlay_bar: (d.len() >= 0x30).then(|| {
            let o = r64(d, 0x28);
            McOverlayBar { mc_overlay_size: o.b(5, 0), mc_overlay_bar: o.0 & !0x3f }
        }),
    })
}
