//! Reference decoding of PCI-X (PCI-X Addendum 2.0) and HyperTransport (HT 3.10 ch. 7).
use super::*;
use pcics::capabilities::*;

pub mod px {
    use super::*;
    pub use pci_x::*;

    pub fn command(v: u16) -> Command {
        let r = Reg(v as u64);
        Command {
            uncorrectable_data_error_recovery_enable: r.t(0),
            enable_relaxed_ordering: r.t(1),
            maximum_memory_read_byte_count: MaximumByteCount(r.b(3, 2)),
            maximum_outstanding_split_transactions: MaximumOutstandingSplitTransactions(r.b(6, 4)),
        }
    }
    pub fn status(v: u32) -> Status {
        let r = Reg(v as u64);
        Status {
            function_number: r.b(2, 0),
            device_number: r.b(7, 3),
            bus_number: r.b(15, 8),
            device_64_bit: r.t(16),
            pci_x_133_capable: r.t(17),
            slit_completion_discarded: r.t(18),
            unexpected_split_completion: r.t(19),
            device_complexity: if r.t(20) { DeviceComplexity::Bridge } else { DeviceComplexity::Simple },
            designed_maximum_memory_read_byte_count: MaximumByteCount(r.b(22, 21)),
            designed_maximum_outstanding_split_transactions: MaximumOutstandingSplitTransactions(
                r.b(25, 23),
            ),
            designed_maximum_cumulative_read_size: MaximumCumulativeReadSize(r.b(28, 26)),
            received_split_completion_error_message: r.t(29),
            pci_x_266_capable: r.t(30),
            pci_x_533_capable: r.t(31),
        }
    }
    pub fn ecc_csr(v: u32) -> EccControlAndStatus {
        let r = Reg(v as u64);
        use EccErrorPhase as P;
        EccControlAndStatus {
            select_secondary_ecc_registers: r.t(0),
            error_present_in_other_ecc_register_bank: r.t(1),
            additional_correctable_ecc_error: r.t(2),
            additional_uncorrectable_ecc_error: r.t(3),
            ecc_error_phase: [
                P::NoError,
                P::First32bits,
                P::Second32bits,
                P::AttributePhase,
                P::Phase32or16bit,
                P::Phase64bit,
                P::Reserved,
                P::Reserved,
            ][r.f(6, 4) as usize],
            ecc_error_corrected: r.t(7),
            syndrome: Syndrome {
                e0: r.t(8),
                e1: r.t(9),
                e2: r.t(10),
                e3: r.t(11),
                e4: r.t(12),
                e5: r.t(13),
                e6: r.t(14),
                e7: r.t(15),
            },
            error_first_command: r.b(19, 16),
            error_second_command: r.b(23, 20),
            error_upper_attributes: r.b(27, 24),
            ecc_control_update_enable: r.t(28),
            disable_single_bit_error_correction: r.t(30),
            ecc_mode: r.t(31),
        }
    }
    /// `version` = bits 13:12 of the command / secondary status register
    pub fn ecc(version: u8, d: &[u8]) -> Option<Ecc> {
        let fits = d.len() >= 16;
        Some(match version {
            0 => Ecc::None,
            1 if fits => Ecc::Mode2Only {
                control_and_status: ecc_csr(u32at(d, 0)),
                first_address: u32at(d, 4),
                second_address: u32at(d, 8),
                attribute: u32at(d, 12),
            },
            2 if fits => Ecc::Mode1OrMode2 {
                control_and_status: ecc_csr(u32at(d, 0)),
                first_address: u32at(d, 4),
                second_address: u32at(d, 8),
                attribute: u32at(d, 12),
            },
            3 => Ecc::Reserved,
            _ => return None,
        })
    }
    pub fn secondary_status(v: u16) -> SecondaryStatus {
        let r = Reg(v as u64);
        let m = r.b(9, 6);
        use SecondaryBusFrequency as F;
        SecondaryStatus {
            device_64_bit: r.t(0),
            pci_x_133_capable: r.t(1),
            slit_completion_discarded: r.t(2),
            unexpected_split_completion: r.t(3),
            split_completion_overrun: r.t(4),
            split_request_delayed: r.t(5),
            secondary_bus_mode: match m {
                0 => SecondaryBusMode::Conventional,
                1..=7 => SecondaryBusMode::Mode1,
                8..=11 => SecondaryBusMode::PciX266,
                _ => SecondaryBusMode::PciX533,
            },
            error_protection: if m < 4 { ErrorProtection::Parity } else { ErrorProtection::Ecc },
            secondary_bus_frequency: match (m, m % 4) {
                (0, _) => F::NotAvailable,
                (_, 0) => F::Reserved,
                (_, 1) => F::Freq66MHz,
                (_, 2) => F::Freq100MHz,
                _ => F::Freq133MHz,
            },
            pci_x_266_capable: r.t(14),
            pci_x_533_capable: r.t(15),
        }
    }
    pub fn bridge_status(v: u32) -> BridgeStatus {
        let r = Reg(v as u64);
        BridgeStatus {
            function_number: r.b(2, 0),
            device_number: r.b(7, 3),
            bus_number: r.b(15, 8),
            device_64_bit: r.t(16),
            pci_x_133_capable: r.t(17),
            slit_completion_discarded: r.t(18),
            unexpected_split_completion: r.t(19),
            split_completion_overrun: r.t(20),
            split_request_delayed: r.t(21),
            device_id_messaging_capable: r.t(29),
            pci_x_266_capable: r.t(30),
            pci_x_533_capable: r.t(31),
        }
    }
}

pub fn pci_x(d: &[u8]) -> Result<PciX, pci_x::PciXError> {
    use pci_x::PciXError as E;
    if d.len() < 6 {
        return Err(E::CommandAndStatus);
    }
    let version = r16(d, 0).b(13, 12);
    Ok(PciX {
        command: px::command(u16at(d, 0)),
        status: px::status(u32at(d, 2)),
        ecc: px::ecc(version, &d[6..])
            .ok_or(if version == 1 { E::EccMode2Only } else { E::EccMode1OrMode2 })?,
    })
}

pub fn pci_x_bridge(d: &[u8]) -> Result<PciXBridge, pci_x::PciXBridgeError> {
    use pci_x::PciXBridgeError as E;
    if d.len() < 14 {
        return Err(E::Mandatory);
    }
    let version = r16(d, 0).b(13, 12);
    let split = |o: usize| pci_x::SplitTransactionControl {
        split_transaction_capacity: u16at(d, o),
        split_transaction_commitment_limit: u16at(d, o + 2),
    };
    Ok(PciXBridge {
        secondary_status: px::secondary_status(u16at(d, 0)),
        bridge_status: px::bridge_status(u32at(d, 2)),
        upstream_split_transaction_control: split(6),
        downstream_split_transaction_control: split(10),
        ecc: px::ecc(version, &d[14..]).ok_or(if version == 1 {
            E::BridgeEccMode2Only
        } else {
            E::BridgeEccMode1OrMode2
        })?,
    })
}

pub mod ht {
    use super::*;
    pub use hypertransport::*;

    pub fn slave_command(v: u16) -> SlaveOrPrimaryCommand {
        let r = Reg(v as u64);
        SlaveOrPrimaryCommand {
            base_unitid: r.b(4, 0),
            unit_count: r.b(9, 5),
            master_host: r.t(10),
            default_direction: r.t(11),
            drop_on_uninitialized_link: r.t(12),
        }
    }
    pub fn host_command(v: u16) -> HostOrSecondaryCommand {
        let r = Reg(v as u64);
        HostOrSecondaryCommand {
            warm_reset: r.t(0),
            double_ended: r.t(1),
            device_number: r.b(6, 2),
            chain_side: r.t(7),
            host_hide: r.t(8),
            act_as_slave: r.t(10),
            host_inbound_end_of_chain_error: r.t(11),
            drop_on_uninitialized_link: r.t(12),
        }
    }
    pub fn link_control(v: u16) -> LinkControl {
        let r = Reg(v as u64);
        LinkControl {
            source_id_enable: r.t(0),
            crc_flood_enable: r.t(1),
            crc_start_test: r.t(2),
            crc_force_error: r.t(3),
            link_failure: r.t(4),
            initialization_complete: r.t(5),
            end_of_chain: r.t(6),
            transmitter_off: r.t(7),
            crc_error: r.b(11, 8),
            isochronous_flow_control_enable: r.t(12),
            ldtstop_tristate_enable: r.t(13),
            extended_ctl_time: r.t(14),
            enable_64_bit_addressing: r.t(15),
        }
    }
    pub fn width(v: u8) -> LinkWidth {
        match v {
            0 => LinkWidth::Width8bits,
            1 => LinkWidth::Width16bits,
            3 => LinkWidth::Width32bits,
            4 => LinkWidth::Width2bits,
            5 => LinkWidth::Width4bits,
            7 => LinkWidth::NotConnected,
            v => LinkWidth::Reserved(v),
        }
    }
    pub fn link_config(v: u16) -> LinkConfiguration {
        let r = Reg(v as u64);
        LinkConfiguration {
            max_link_width_in: width(r.b(2, 0)),
            doubleword_flow_control_in: r.t(3),
            max_link_width_out: width(r.b(6, 4)),
            doubleword_flow_control_out: r.t(7),
            link_width_in: width(r.b(10, 8)),
            doubleword_flow_control_in_enable: r.t(11),
            link_width_out: width(r.b(14, 12)),
            doubleword_flow_control_out_enable: r.t(15),
        }
    }
    pub fn revision(v: u8) -> RevisionId {
        RevisionId {
            minor: v & 0x1f,
            major: v >> 5,
        }
    }
    pub fn link_error(v: u8) -> LinkError {
        LinkError {
            protocol_error: v & 0x10 != 0,
            overflow_error: v & 0x20 != 0,
            end_of_chain_error: v & 0x40 != 0,
            ctl_timeout: v & 0x80 != 0,
        }
    }
    pub fn freq_cap(v: u16) -> LinkFrequencyCapability {
        let r = Reg(v as u64);
        LinkFrequencyCapability {
            supports_200mhz: r.t(0),
            supports_300mhz: r.t(1),
            supports_400mhz: r.t(2),
            supports_500mhz: r.t(3),
            supports_600mhz: r.t(4),
            supports_800mhz: r.t(5),
            supports_1000mhz: r.t(6),
            supports_1200mhz: r.t(7),
            supports_1400mhz: r.t(8),
            supports_1600mhz: r.t(9),
            supports_1800mhz: r.t(10),
            supports_2000mhz: r.t(11),
            supports_2200mhz: r.t(12),
            supports_2400mhz: r.t(13),
            supports_2600mhz: r.t(14),
            supports_vendor_specific: r.t(15),
        }
    }
    pub fn feature(v: u16) -> FeatureCapability {
        let r = Reg(v as u64);
        FeatureCapability {
            isochronous_flow_control_mode: r.t(0),
            ldtstop: r.t(1),
            crc_test_mode: r.t(2),
            extended_ctl_time_required: r.t(3),
            qword_addressing: r.t(4),
            unitid_reorder_disable: r.t(5),
            source_identification_extension: r.t(6),
            extended_register_set: r.t(8),
            upstream_configuration_enable: r.t(9),
        }
    }
    pub fn error_handling(v: u16) -> ErrorHandling {
        let r = Reg(v as u64);
        ErrorHandling {
            protocol_error_flood_enable: r.t(0),
            overflow_error_flood_enable: r.t(1),
            protocol_error_fatal_enable: r.t(2),
            overflow_error_fatal_enable: r.t(3),
            end_of_chain_error_fatal_enable: r.t(4),
            response_error_fatal_enable: r.t(5),
            crc_error_fatal_enable: r.t(6),
            system_error_fatal_enable: r.t(7),
            chain_fail: r.t(8),
            response_error: r.t(9),
            protocol_error_nonfatal_enable: r.t(10),
            overflow_error_nonfatal_enable: r.t(11),
            end_of_chain_error_nonfatal_enable: r.t(12),
            response_error_nonfatal_enable: r.t(13),
            crc_error_nonfatal_enable: r.t(14),
            system_error_nonfatal_enable: r.t(15),
        }
    }
    pub fn frequency(ext: bool, v: u8) -> LinkFrequency {
        use LinkFrequency::*;
        if ext {
            return match v {
                1 => Rate2800MHz,
                2 => Rate3000MHz,
                3 => Rate3200MHz,
                v => Reserved(0x10 | v),
            };
        }
        [
            Rate200MHz,
            Rate300MHz,
            Rate400MHz,
            Rate500MHz,
            Rate600MHz,
            Rate800MHz,
            Rate1000MHz,
            Rate1200MHz,
            Rate1400MHz,
            Rate1600MHz,
            Rate1800MHz,
            Rate2000MHz,
            Rate2200MHz,
            Rate2400MHz,
            Rate2600MHz,
            VendorSpecific,
        ][v as usize]
            .clone()
    }
    /// Value of the type field the decoded block must report
    pub fn type_code(d: &[u8]) -> u8 {
        match d[1] >> 3 {
            0..=3 => 0,
            4..=7 => 4,
            v => v,
        }
    }
}

pub fn hypertransport(d: &[u8]) -> Result<Hypertransport, hypertransport::HypertransportError> {
    use ht::*;
    use hypertransport::HypertransportError as E;
    use Hypertransport as H;
    if d.len() < 2 {
        return Err(E::CapabilityType);
    }
    Ok(match d[1] >> 3 {
        0..=3 => {
            if d.len() < 26 {
                return Err(E::SlaveOrPrimaryInterface);
            }
            H::SlaveOrPrimaryInterface(SlaveOrPrimaryInterface {
                command: slave_command(u16at(d, 0)),
                link_control_0: link_control(u16at(d, 2)),
                link_config_0: link_config(u16at(d, 4)),
                link_control_1: link_control(u16at(d, 6)),
                link_config_1: link_config(u16at(d, 8)),
                revision_id: revision(d[10]),
                link_freq_0: d[11] & 0xf,
                link_error_0: link_error(d[11]),
                link_freq_cap_0: freq_cap(u16at(d, 12)),
                feature: feature(d[14] as u16),
                link_freq_1: d[15] & 0xf,
                link_error_1: link_error(d[15]),
                link_freq_cap_1: freq_cap(u16at(d, 16)),
                enumeration_scratchpad: u16at(d, 18),
                error_handling: error_handling(u16at(d, 20)),
                mem_base_upper: d[22],
                mem_limit_upper: d[23],
                bus_number: d[24],
            })
        }
        4..=7 => {
            if d.len() < 22 {
                return Err(E::HostOrSecondaryInterface);
            }
            H::HostOrSecondaryInterface(HostOrSecondaryInterface {
                command: host_command(u16at(d, 0)),
                link_control: link_control(u16at(d, 2)),
                link_config: link_config(u16at(d, 4)),
                revision_id: revision(d[6]),
                link_freq: d[7] & 0xf,
                link_error: link_error(d[7]),
                link_freq_cap: freq_cap(u16at(d, 8)),
                feature: feature(u16at(d, 10)),
                enumeration_scratchpad: u16at(d, 14),
                error_handling: error_handling(u16at(d, 16)),
                mem_base_upper: d[18],
                mem_limit_upper: d[19],
            })
        }
        8 => H::Switch(Switch {}),
        9 => H::ReservedHost(ReservedHost {}),
        16 => H::InterruptDiscoveryAndConfiguration(InterruptDiscoveryAndConfiguration {}),
        17 => H::RevisionId(revision(d[0])),
        18 => H::UnitIdClumping(UnitIdClumping {}),
        19 => H::ExtendedConfigurationSpaceAccess(ExtendedConfigurationSpaceAccess {}),
        20 => H::AddressMapping(AddressMapping {}),
        21 => {
            if d.len() < 10 {
                return Err(E::MsiMapping);
            }
            H::MsiMapping(MsiMapping {
                enabled: d[0] & 1 != 0,
                fixed: d[0] & 2 != 0,
                base_address_lower: u32at(d, 2),
                base_address_upper: u32at(d, 6),
            })
        }
        22 => H::DirectRoute(DirectRoute {}),
        23 => H::VCSet(VCSet {}),
        24 => H::RetryMode(RetryMode {}),
        25 => H::X86Encoding(X86Encoding {}),
        26 => H::Gen3(Gen3 {}),
        27 => H::FunctionLevelExtension(FunctionLevelExtension {}),
        28 => H::PowerManagement(PowerManagement {}),
        29 => H::HighNodeCount(HighNodeCount {}),
        v => H::Reserved(v),
    })
}
