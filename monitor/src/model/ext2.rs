//! Reference decoding of extended capabilities, part 2 (same conventions as part 1).
use super::*;
use pcics::extended_capabilities::*;

fn need(d: &[u8], n: usize) -> Option<()> {
    if d.len() >= n {
        Some(())
    } else {
        None
    }
}

pub fn pri(d: &[u8]) -> Option<PageRequestInterface> {
    use page_request_interface::*;
    need(d, 0x10)?;
    let (k, s) = (r16(d, 4), r16(d, 6));
    Some(PageRequestInterface {
        page_request_control: PageRequestControl { enable: k.t(0), reset: k.t(1) },
        page_request_status: PageRequestStatus {
            response_failure: s.t(0),
            unexpected_page_request_group_index: s.t(1),
            stopped: s.t(8),
            prg_response_pasid_required: s.t(15),
        },
        outstanding_page_request_capacity: u32at(d, 8),
        outstanding_page_request_allocation: u32at(d, 0xc),
    })
}

pub fn power_budgeting_(d: &[u8]) -> Option<PowerBudgeting> {
    use power_budgeting::*;
    need(d, 0x10)?;
    let r = r32(d, 8);
    Some(PowerBudgeting {
        data_select: d[4],
        data: Data {
            base_power: match r.b(7, 0) {
                0xf0 => BasePower::Gt239Le250,
                0xf1 => BasePower::Gt250Le275,
                0xf2 => BasePower::Gt275Le300,
                v if v > 0xf2 => BasePower::Gt300,
                v => BasePower::Value(v),
            },
            data_scale: match r.f(9, 8) {
                0 => DataScale::One,
                1 => DataScale::Deci,
                2 => DataScale::Centi,
                _ => DataScale::Milli,
            },
            pm_sub_state: match r.b(12, 10) {
                0 => PmSubState::Default,
                v => PmSubState::Specific(v),
            },
            pm_state: match r.f(14, 13) {
                0 => PmState::D0,
                1 => PmState::D1,
                2 => PmState::D2,
                _ => PmState::D3,
            },
            operation_condition_type: match r.b(17, 15) {
                0 => OperationConditionType::PmeAux,
                1 => OperationConditionType::Auxiliary,
                2 => OperationConditionType::Idle,
                3 => OperationConditionType::Sustained,
                4 => OperationConditionType::SustainedEmergencyPowerReductionState,
                5 => OperationConditionType::MaximumEmergencyPowerReductionState,
                7 => OperationConditionType::Maximum,
                v => OperationConditionType::Reserved(v),
            },
            power_rail: match r.b(20, 18) {
                0 => PowerRail::Power12v,
                1 => PowerRail::Power3_3v,
                2 => PowerRail::Power1_5vOr1_8v,
                7 => PowerRail::Thermal,
                v => PowerRail::Reserved(v),
            },
        },
        power_budget_capability: PowerBudgetCapability { system_allocated: d[0xc] & 1 == 1 },
    })
}

pub fn ptm(d: &[u8]) -> Option<PrecisionTimeMeasurement> {
    use precision_time_measurement::*;
    need(d, 0xc)?;
    let (c, k) = (r32(d, 4), r32(d, 8));
    Some(PrecisionTimeMeasurement {
        ptm_capability: PtmCapability {
            ptm_requester_capable: c.t(0),
            ptm_responder_capable: c.t(1),
            ptm_root_capable: c.t(2),
            local_clock_granularity: c.b(15, 8),
        },
        ptm_control: PtmControl {
            ptm_enable: k.t(0),
            root_select: k.t(1),
            effective_granularity: k.b(15, 8),
        },
    })
}

pub fn pasid(d: &[u8]) -> Option<ProcessAddressSpaceId> {
    use process_address_space_id::*;
    need(d, 8)?;
    let (c, k) = (r16(d, 4), r16(d, 6));
    Some(ProcessAddressSpaceId {
        pacid_capability: PacidCapability {
            execute_permission_supported: c.t(1),
            privileged_mode_supported: c.t(2),
            max_pasid_width: c.b(12, 8),
        },
        pacid_control: PacidControl {
            pasid_enable: k.t(0),
            execute_permission_enable: k.t(1),
            privileged_mode_enable: k.t(2),
        },
    })
}

pub fn mpcie(d: &[u8]) -> Option<PciExpressOverMphy> {
    use pci_express_over_m_phy::*;
    need(d, 0x1c)?;
    let (c, k, s, a, p) = (r32(d, 4), r32(d, 8), r32(d, 0xc), r32(d, 0x14), r32(d, 0x18));
    let speed = |r: Reg| MpcieLinkSpeed { hs_g1: r.t(0), hs_g2: r.t(1) };
    let sup = |v: u8| {
        let r = Reg(v as u64);
        LaneWidthSupported {
            x1: r.t(0),
            x2: r.t(1),
            x4: r.t(2),
            x8: r.t(3),
            x12: r.t(4),
            x16: r.t(5),
            x32: r.t(6),
        }
    };
    let st = |v: u8| match v {
        1 => LaneWidthStatus::X1,
        2 => LaneWidthStatus::X2,
        4 => LaneWidthStatus::X4,
        8 => LaneWidthStatus::X8,
        12 => LaneWidthStatus::X12,
        16 => LaneWidthStatus::X16,
        32 => LaneWidthStatus::X32,
        v => LaneWidthStatus::Reserved(v),
    };
    Some(PciExpressOverMphy {
        mpcie_capabilities: MpcieCapabilities {
            mpcie_link_speed_capability: speed(c),
            configuration_software_supported: c.t(15),
            maximum_tx_lane_width_capability: sup(c.b(23, 16)),
            maximum_rx_lane_width_capability: sup(c.b(31, 24)),
        },
        mpcie_control: MpcieControl { mpcie_target_link_speed_control: speed(k) },
        mpcie_status: MpcieStatus {
            mpcie_current_link_speed_status: speed(s),
            mpcie_configuration_software_status: s.t(15),
            tx_lane_width_status: st(s.b(23, 16)),
            rx_lane_width_status: st(s.b(31, 24)),
        },
        mpcie_lane_error_status: u32at(d, 0x10),
        mpcie_phy_control_address: MpciePhyControlAddress {
            lower_addr: a.b(7, 0),
            upper_addr: a.b(20, 16) | a.b(24, 24) << 5,
            phy_location: match a.b(27, 25) {
                0 => PhyLocation::LocalPhy,
                1 => PhyLocation::RemotePhy,
                v => PhyLocation::Reserved(v),
            },
            read: a.t(30),
            config: a.t(31),
        },
        mpcie_phy_control_data: MpciePhyControlData {
            phy_register_data: p.b(7, 0),
            phy_control_error: p.t(29),
            rrap_abort_a: p.t(30),
            phy_control_pending: p.t(31),
        },
    })
}

pub mod pmux {
    use super::*;
    pub use protocol_multiplexing::*;
    pub struct Pmux {
        pub cap: PmuxCapability,
        pub ctl: PmuxControl,
        pub st: PmuxStatus,
        pub entries: Vec<PmuxProtocolArrayEntry>,
    }
    pub fn decode(d: &[u8]) -> Result<Pmux, ProtocolMultiplexingError> {
        if d.len() < 0x10 {
            return Err(ProtocolMultiplexingError::Mandatory);
        }
        let (c, k, s) = (r32(d, 4), r32(d, 8), r32(d, 0xc));
        let n = c.f(5, 0) as usize;
        if d.len() < 0x10 + n * 4 {
            return Err(ProtocolMultiplexingError::PmuxProtocolArray {
                expected: n * 4,
                found: d.len() - 0x10,
            });
        }
        Ok(Pmux {
            cap: PmuxCapability {
                pmux_protocol_array_size: n as u8,
                pmux_supported_link_speeds: PmuxSupportedLinkSpeeds {
                    speed_2_5_gtps: c.t(8),
                    speed_5_0_gtps: c.t(9),
                    speed_8_0_gtps: c.t(10),
                    speed_16_0_gtps: c.t(11),
                },
            },
            ctl: PmuxControl {
                pmux_channel_0_assignment: k.b(5, 0),
                pmux_channel_1_assignment: k.b(13, 8),
                pmux_channel_2_assignment: k.b(21, 16),
                pmux_channel_3_assignment: k.b(29, 24),
            },
            st: PmuxStatus {
                pmux_channel_0_disabled_link_speed: s.t(0),
                pmux_channel_0_disabled_link_width: s.t(1),
                pmux_channel_0_disabled_link_protocol_specific: s.t(2),
                pmux_channel_1_disabled_link_speed: s.t(8),
                pmux_channel_1_disabled_link_width: s.t(9),
                pmux_channel_1_disabled_link_protocol_specific: s.t(10),
                pmux_channel_2_disabled_link_speed: s.t(16),
                pmux_channel_2_disabled_link_width: s.t(17),
                pmux_channel_2_disabled_link_protocol_specific: s.t(18),
                pmux_channel_3_disabled_link_speed: s.t(24),
                pmux_channel_3_disabled_link_width: s.t(25),
                pmux_channel_3_disabled_link_protocol_specific: s.t(26),
            },
            entries: (0..n)
                .map(|i| PmuxProtocolArrayEntry {
                    protocol_id: u16at(d, 0x10 + 4 * i),
                    authority_id: u16at(d, 0x12 + 4 * i),
                })
                .collect(),
        })
    }
}

pub fn rtr(d: &[u8]) -> Option<ReadinessTimeReporting> {
    use readiness_time_reporting::*;
    need(d, 0xc)?;
    let (a, b) = (r32(d, 4), r32(d, 8));
    let t = |r: Reg, lo: u32| ReadinessTime { value: r.w(lo + 8, lo), scale: r.b(lo + 11, lo + 9) };
    Some(ReadinessTimeReporting {
        reset_time: t(a, 0),
        dl_up_time: t(a, 12),
        valid: a.t(31),
        flr_time: t(b, 0),
        d3hot_to_d0_time: t(b, 12),
    })
}

pub mod rebar {
    use super::*;
    pub use resizable_bar::*;
    pub fn decode(d: &[u8]) -> Result<Vec<ResizableBarEntry>, ResizableBarError> {
        if d.len() < 0xc {
            return Err(ResizableBarError::FirstEntry);
        }
        let n = r32(d, 8).f(7, 5) as usize;
        if !(1..=6).contains(&n) {
            return Err(ResizableBarError::NumberOfResizableBars { value: n });
        }
        if d.len() < 4 + 8 * n {
            return Err(ResizableBarError::ShortData);
        }
        Ok((0..n)
            .map(|i| {
                let k = r32(d, 8 + 8 * i);
                ResizableBarEntry {
                    capability: ResizableBarCapability {
                        support_map_from_1mb_to_128tb: u32at(d, 4 + 8 * i),
                    },
                    control: ResizableBarControl {
                        bar_index: k.b(2, 0),
                        number_of_resizable_bars: k.b(7, 5),
                        bar_size: k.b(13, 8),
                        support_map_from_256tb_to_8eb: k.w(31, 16),
                    },
                }
            })
            .collect())
    }
    /// Does the function support a BAR of 2^p bytes (7.8.6.2/7.8.6.3)?
    pub fn supports(d: &[u8], i: usize, p: usize) -> bool {
        match p {
            20..=47 => r32(d, 4 + 8 * i).t(p as u32 - 16),
            48..=63 => r32(d, 8 + 8 * i).t(p as u32 - 32),
            _ => false,
        }
    }
}

pub fn rcec(d: &[u8]) -> Option<RootComplexEventCollectorEndpointAssociation> {
    need(d, 8)?;
    Some(RootComplexEventCollectorEndpointAssociation {
        association_bitmap_for_rcieps: u32at(d, 4),
    })
}

pub fn rcilc(d: &[u8]) -> Option<RootComplexInternalLinkControl> {
    use root_complex_internal_link_control::*;
    need(d, 0xc)?;
    let (c, k, s) = (r32(d, 4), r16(d, 8), r16(d, 0xa));
    Some(RootComplexInternalLinkControl {
        root_complex_link_capabilities: RootComplexLinkCapabilities {
            max_link_speed: pcie::speed(c.b(3, 0)),
            maximum_link_width: pcie::width(c.b(9, 4)),
            active_state_power_management_support: pcie::aspm(c.b(11, 10)),
            l0s_exit_latency: pcie::l0s(c.b(14, 12)),
            l1_exit_latency: pcie::l1(c.b(17, 15)),
            supported_link_speeds_vector: pcie::speeds(c.b(24, 18)),
        },
        root_complex_link_control: RootComplexLinkControl {
            active_state_power_management_control: pcie::aspm(k.b(1, 0)),
            extended_synch: k.t(7),
        },
        root_complex_link_status: RootComplexLinkStatus {
            current_link_speed: pcie::speed(s.b(3, 0)),
            negotiated_link_width: pcie::width(s.b(9, 4)),
        },
    })
}

pub mod rcld {
    use super::*;
    pub use root_complex_link_declaration::*;
    pub struct Rcld {
        pub esd: ElementSelfDescription,
        pub state: LinkEntriesState,
        pub entries: Vec<LinkEntry>,
    }
    pub fn esd(v: u32) -> ElementSelfDescription {
        let r = Reg(v as u64);
        ElementSelfDescription {
            element_type: match r.b(3, 0) {
                0 => ElementType::ConfigurationSpaceElement,
                1 => ElementType::SystemEgressPortOrInternalSink,
                2 => ElementType::InternalRootComplexLink,
                v => ElementType::Reserved(v),
            },
            reserved: r.b(7, 4),
            number_of_link_entries: r.b(15, 8),
            component_id: r.b(23, 16),
            port_number: r.b(31, 24),
        }
    }
    pub fn address(config: bool, lo: u32, hi: u32) -> LinkAddress {
        let q = Reg(lo as u64 | (hi as u64) << 32);
        if !config {
            return LinkAddress::MemoryMappedSpace(q.0);
        }
        let n = if q.f(2, 0) == 0 { 8 } else { q.b(2, 0) };
        LinkAddress::ConfigurationSpace {
            n,
            reserved: q.w(11, 3),
            function: q.b(14, 12),
            device: q.b(19, 15),
            bus: q.b(19 + n as u32, 20),
            address: q.0 >> (20 + n) << (20 + n),
        }
    }
    pub fn entry(d: &[u8], o: usize) -> LinkEntry {
        let r = r32(d, o);
        LinkEntry {
            link_description: LinkDescription {
                link_valid: r.t(0),
                link_type: r.b(1, 1),
                associate_rcrb_header: r.t(2),
                target_component_id: r.b(23, 16),
                target_port_number: r.b(31, 24),
            },
            link_address: address(r.t(1), u32at(d, o + 8), u32at(d, o + 12)),
        }
    }
    pub fn decode(d: &[u8]) -> Result<Rcld, RootComplexLinkDeclarationError> {
        use RootComplexLinkDeclarationError as E;
        if d.len() < 8 {
            return Err(E::ElementSelfDescription);
        }
        let element_self_description = esd(u32at(d, 4));
        let n = d[5] as usize;
        if n == 0 {
            return Err(E::NumberOfLinkEntries { element_self_description });
        }
        if d.len() < 0x10 {
            return Err(E::ReservedSpace { element_self_description });
        }
        let avail = d.len() - 0x10;
        if avail < 16 {
            return Err(E::LinkEntry1 { element_self_description });
        }
        let have = n.min(avail / 16);
        Ok(Rcld {
            esd: element_self_description,
            state: if have == n {
                LinkEntriesState::Valid
            } else if avail % 16 == 0 {
                LinkEntriesState::Incomplete
            } else {
                LinkEntriesState::Invalid
            },
            entries: (0..have).map(|i| entry(d, 0x10 + 16 * i)).collect(),
        })
    }
}

pub fn rcrb(d: &[u8]) -> Option<RootComplexRegisterBlockHeader> {
    use root_complex_register_block_header::*;
    need(d, 0x14)?;
    Some(RootComplexRegisterBlockHeader {
        vendor_id: u16at(d, 4),
        device_id: u16at(d, 6),
        rcrb_capabilities: RcrbCapabilities { crs_software_visibility: d[8] & 1 == 1 },
        rcrb_control: RcrbControl { crs_software_visibility_enable: d[0xc] & 1 == 1 },
    })
}

pub mod sec {
    use super::*;
    pub use secondary_pci_express::*;
    pub fn regs(d: &[u8]) -> Option<(LinkControl3, LaneErrorStatus)> {
        need(d, 0xc)?;
        let r = r32(d, 4);
        Some((
            LinkControl3 {
                perform_equalization: r.t(0),
                link_equalization_request_interrupt_enable: r.t(1),
                lower_skp_os_generation_vector: pcie::speeds(r.b(15, 9)),
            },
            LaneErrorStatus(u32at(d, 8)),
        ))
    }
    /// Derived `Debug` text of the lane register (its fields are private).
    pub fn lane_debug(v: u16) -> String {
        let r = Reg(v as u64);
        format!(
            "LaneEqualizationControl {{ downstream_port_transmitter_preset: {:?}, downstream_port_receiver_preset_hint: {:?}, upstream_port_transmitter_preset: {:?}, upstream_port_receiver_preset_hint: {:?} }}",
            pcie::transmitter_preset(r.b(3, 0)),
            pcie::receiver_preset_hint(r.b(6, 4)),
            pcie::transmitter_preset(r.b(11, 8)),
            pcie::receiver_preset_hint(r.b(14, 12)),
        )
    }
}

pub mod sriov {
    use super::*;
    pub use single_root_io_virtualization::*;
    pub struct Sriov {
        pub caps: SriovCapabilities,
        pub ctl: SriovControl,
        pub st: SriovStatus,
        pub initial_total_num: [u16; 3],
        pub fdl: u8,
        pub offset_stride_id: [u16; 3],
        pub page: PageSizes,
        pub bars: [u32; 6],
        pub msao: u32,
    }
    pub fn decode(d: &[u8]) -> Option<Sriov> {
        need(d, 0x40)?;
        let (c, k, s) = (r32(d, 4), r16(d, 8), r16(d, 0xa));
        let mut bars = [0u32; 6];
        for i in 0..6 {
            bars[i] = u32at(d, 0x24 + 4 * i);
        }
        Some(Sriov {
            caps: SriovCapabilities {
                vf_migration_capable: c.t(0),
                ari_capable_hierarchy_preserved: c.t(1),
                vf_10bit_tag_requester_supported: c.t(2),
                vf_migration_interrupt_message_number: c.w(31, 21),
            },
            ctl: SriovControl {
                vf_enable: k.t(0),
                vf_migration_enable: k.t(1),
                vf_migration_interrupt_enable: k.t(2),
                vf_mse: k.t(3),
                ari_capable_hierarchy: k.t(4),
                vf_10bit_tag_requester_enable: k.t(5),
            },
            st: SriovStatus { vf_migration_status: s.t(0) },
            initial_total_num: [u16at(d, 0xc), u16at(d, 0xe), u16at(d, 0x10)],
            fdl: d[0x12],
            offset_stride_id: [u16at(d, 0x14), u16at(d, 0x16), u16at(d, 0x1a)],
            page: PageSizes { supported: u32at(d, 0x1c), system: u32at(d, 0x20) },
            bars,
            msao: u32at(d, 0x3c),
        })
    }
}

pub fn tph(d: &[u8]) -> Option<TphRequester<'_>> {
    use tph_requester::*;
    need(d, 0xc)?;
    let (c, k) = (r32(d, 4), r32(d, 8));
    let size = c.w(26, 16);
    let tail = &d[0xc..];
    let bytes = 2 * (size as usize + 1);
    Some(TphRequester {
        tph_requester_capability: TphRequesterCapability {
            no_st_mode_supported: c.t(0),
            interrupt_vector_mode_supported: c.t(1),
            device_specific_mode_supported: c.t(2),
            extended_tph_requester_supported: c.t(8),
            st_table: match c.f(10, 9) {
                0 => StTable::NotPresent,
                1 if size < 64 && tail.len() >= bytes => {
                    StTable::Valid { size, data: &tail[..bytes] }
                }
                1 => StTable::Invalid { size, data: tail },
                2 => StTable::MsiXTable { size },
                _ => StTable::Reserved,
            },
        },
        tph_requester_control: TphRequesterControl {
            st_mode_select: match k.b(2, 0) {
                0 => StModeSelect::NoStMode,
                1 => StModeSelect::InterruptVectorMode,
                2 => StModeSelect::DeviceSpecificMode,
                v => StModeSelect::Reserved(v),
            },
            tph_requester_enable: match k.f(9, 8) {
                0 => TphRequesterEnable::NotPermitted,
                1 => TphRequesterEnable::TphPermitted,
                2 => TphRequesterEnable::Reserved,
                _ => TphRequesterEnable::TphAndExtendedTphPermitted,
            },
        },
    })
}

pub fn vsec(d: &[u8]) -> Option<VendorSpecificExtendedCapability<'_>> {
    use vendor_specific_extended_capability::*;
    need(d, 8)?;
    let r = r32(d, 4);
    let len = r.w(31, 20);
    Some(VendorSpecificExtendedCapability {
        header: VsecHeader { vsec_id: r.w(15, 0), vsec_rev: r.b(19, 16), vsec_length: len },
        registers: if len < 8 {
            VsecRegisters::InvalidLength(len)
        } else if d.len() >= len as usize {
            VsecRegisters::Valid(&d[8..len as usize])
        } else {
            VsecRegisters::Incomplete(&d[8..])
        },
    })
}

pub mod dvsec {
    use super::*;
    use compute_express_link::pcie_dvsec_for_cxl_device::*;
    pub use compute_express_link::{ComputeExpressLink as Cxl, ComputeExpressLinkError};
    pub use designated_vendor_specific_extended_capability::*;

    /// Several CXL DVSEC payloads are unit structs in private modules; a name stands for them.
    #[derive(Debug, PartialEq)]
    pub enum Payload<'a> {
        Raw(&'a [u8]),
        CxlDevice(Box<PcieDvsecForCxlDevice>),
        Named(&'static str),
        Undefined(u16),
    }
    pub fn payload<'a>(t: &DvsecType<'a>) -> Payload<'a> {
        match t {
            DvsecType::Unspecified(r) => Payload::Raw(r),
            DvsecType::ComputeExpressLink(c) => match c {
                Cxl::PcieDvsecForCxlDevice(d) => Payload::CxlDevice(Box::new(d.clone())),
                Cxl::NonCxlFunctionMapDvsec(_) => Payload::Named("non-cxl function map"),
                Cxl::Cxl20ExtensionsDvsecForPorts(_) => Payload::Named("ports"),
                Cxl::GpfDvsecForCxlPorts(_) => Payload::Named("gpf ports"),
                Cxl::GpfDvsecForCxlDevices(_) => Payload::Named("gpf devices"),
                Cxl::PcieDvsecForFlexBusPort(_) => Payload::Named("flex bus"),
                Cxl::RegisterLocatorDvsec(_) => Payload::Named("register locator"),
                Cxl::MldDvsec(_) => Payload::Named("mld"),
                Cxl::PcieDvsecForTestCapability(_) => Payload::Named("test"),
                Cxl::Undefined(id) => Payload::Undefined(*id),
            },
        }
    }
    #[derive(Debug, PartialEq)]
    pub struct Expect<'a> {
        pub vid: u16,
        pub rev: u8,
        pub len: u16,
        pub id: u16,
        pub payload: Payload<'a>,
    }
    fn size(d: &[u8], o: usize) -> CxlRangeSize {
        let (hi, r) = (u32at(d, o), r32(d, o + 4));
        CxlRangeSize {
            memory_info_valid: r.t(0),
            memory_active: r.t(1),
            media_type: match r.b(4, 2) {
                0 => MediaType::Volatile,
                1 => MediaType::NonVolatile,
                2 => MediaType::Cdat,
                v => MediaType::Reserved(v),
            },
            memory_class: match r.b(7, 5) {
                0 => MemoryClass::Memory,
                1 => MemoryClass::Storage,
                2 => MemoryClass::Cdat,
                v => MemoryClass::Reserved(v),
            },
            desired_interleave: match r.b(12, 8) {
                0 => DesiredInterleave::NoInterleave,
                1 => DesiredInterleave::Granularity256B,
                2 => DesiredInterleave::Granularity4KB,
                3 => DesiredInterleave::Granularity512B,
                4 => DesiredInterleave::Granularity1KB,
                5 => DesiredInterleave::Granularity2KB,
                6 => DesiredInterleave::Granularity8KB,
                7 => DesiredInterleave::Granularity16KB,
                v => DesiredInterleave::Reserved(v),
            },
            memory_active_timeout: match r.b(15, 13) {
                0 => MemoryActiveTimeout::MaxTime1s,
                1 => MemoryActiveTimeout::MaxTime4s,
                2 => MemoryActiveTimeout::MaxTime16s,
                3 => MemoryActiveTimeout::MaxTime64s,
                4 => MemoryActiveTimeout::MaxTime256s,
                v => MemoryActiveTimeout::Reserved(v),
            },
            memory_size: (hi as u64) << 32 | (r.0 & 0xf000_0000),
        }
    }
    fn base(d: &[u8], o: usize) -> CxlRangeBase {
        CxlRangeBase {
            memory_base: (u32at(d, o) as u64) << 32 | (u32at(d, o + 4) & 0xf000_0000) as u64,
        }
    }
    /// CXL 2.0, 8.1.3. `d` starts at the extended capability header.
    fn cxl_device(d: &[u8]) -> PcieDvsecForCxlDevice {
        let c = r16(d, 0xa);
        let k = r16(d, 0xc);
        let k2 = r16(d, 0x10);
        let s2 = r16(d, 0x12);
        let c2 = r16(d, 0x16);
        PcieDvsecForCxlDevice {
            cxl_capability: CxlCapability {
                cache_capable: c.t(0),
                io_capable: c.t(1),
                mem_capable: c.t(2),
                mem_hwinit_mode: c.t(3),
                hdm_count: match c.f(5, 4) {
                    0 => HdmCount::ZeroRanges,
                    1 => HdmCount::OneHdmRange,
                    2 => HdmCount::TwoHdmRanges,
                    _ => HdmCount::Reserved,
                },
                cache_writeback_and_invalidate_capable: c.t(6),
                cxl_reset_capable: c.t(7),
                cxl_reset_timeout: match c.b(10, 8) {
                    0 => CxlResetTimeout::MaxTime10ms,
                    1 => CxlResetTimeout::MaxTime100ms,
                    2 => CxlResetTimeout::MaxTime1s,
                    3 => CxlResetTimeout::MaxTime10s,
                    4 => CxlResetTimeout::MaxTime100s,
                    v => CxlResetTimeout::Reserved(v),
                },
                cxl_reset_mem_clr_capable: c.t(11),
                multiple_logical_device: c.t(13),
                viral_capable: c.t(14),
                pm_init_completion_reporting_capable: c.t(15),
            },
            cxl_control: CxlControl {
                cache_enable: k.t(0),
                io_enable: k.t(1),
                mem_enable: k.t(2),
                cache_sf_coverage: match k.f(7, 3) {
                    0 => CacheSfCoverage::NoSnoopFilter,
                    n => CacheSfCoverage::SnoopFilter(0x8000u64 << n),
                },
                cache_sf_granularity: [
                    CacheSfGranularity::Tracking64B,
                    CacheSfGranularity::Tracking128B,
                    CacheSfGranularity::Tracking256B,
                    CacheSfGranularity::Tracking512B,
                    CacheSfGranularity::Tracking1KB,
                    CacheSfGranularity::Tracking2KB,
                    CacheSfGranularity::Tracking4KB,
                    CacheSfGranularity::Reserved,
                ][k.f(10, 8) as usize],
                cache_clean_eviction: if k.t(11) {
                    CacheCleanEviction::NotNeeded
                } else {
                    CacheCleanEviction::Needed
                },
                viral_enable: k.t(14),
            },
            cxl_status: CxlStatus { viral_status: r16(d, 0xe).t(14) },
            cxl_control2: CxlControl2 {
                disable_caching: k2.t(0),
                initiate_cache_write_back_and_invalidation: k2.t(1),
                initiate_cxl_reset: k2.t(2),
                cxl_reset_mem_clr_enable: k2.t(3),
            },
            cxl_status2: CxlStatus2 {
                cache_invalid: s2.t(0),
                cxl_reset_complete: s2.t(1),
                cxl_reset_error: s2.t(2),
                power_management_initialization_complete: s2.t(15),
            },
            cxl_lock: CxlLock { config_lock: r16(d, 0x14).t(0) },
            cxl_capability2: CxlCapability2 {
                cache_size_unit: match c2.b(3, 0) {
                    0 => CacheSizeUnit::NotReported,
                    1 => CacheSizeUnit::Unit64K,
                    2 => CacheSizeUnit::Unit1MB,
                    v => CacheSizeUnit::Reserved(v),
                },
                cache_size: c2.b(15, 8),
            },
            cxl_range_1_size: size(d, 0x18),
            cxl_range_1_base: base(d, 0x20),
            cxl_range_2_size: size(d, 0x28),
            cxl_range_2_base: base(d, 0x30),
        }
    }
    pub fn decode(d: &[u8]) -> Result<Expect<'_>, DvsecError> {
        if d.len() < 0xa {
            return Err(DvsecError::Mandatory);
        }
        let r = r32(d, 4);
        let (vid, rev, len, id) = (r.w(15, 0), r.b(19, 16), r.w(31, 20), u16at(d, 8));
        let n = len as usize;
        if n < 0xa || n > d.len() {
            return Err(DvsecError::VendorSpecificRegisters {
                dvsec_vendor_id: vid,
                dvsec_revision: rev,
                dvsec_length: len,
                dvsec_id: id,
                real: d.len(),
            });
        }
        let payload = if vid == 0x1e98 {
            match id {
                0 if n < 0x38 => {
                    return Err(DvsecError::ComputeExpressLink {
                        source: ComputeExpressLinkError::PcieDvsecForCxlDevice,
                    })
                }
                0 => Payload::CxlDevice(Box::new(cxl_device(d))),
                2 => Payload::Named("non-cxl function map"),
                3 => Payload::Named("ports"),
                4 => Payload::Named("gpf ports"),
                5 => Payload::Named("gpf devices"),
                7 => Payload::Named("flex bus"),
                8 => Payload::Named("register locator"),
                9 => Payload::Named("mld"),
                0xa => Payload::Named("test"),
                v => Payload::Undefined(v),
            }
        } else {
            Payload::Raw(&d[0xa..n])
        };
        Ok(Expect { vid, rev, len, id, payload })
    }
}

pub mod vc {
    use super::*;
    pub use virtual_channel::*;
    pub fn refclk(v: u8) -> ReferenceClock {
        match v {
            0 => ReferenceClock::Rc100ns,
            v => ReferenceClock::Reserved(v),
        }
    }
    pub fn cap2(r: Reg) -> PortVcCapability2 {
        PortVcCapability2 {
            vc_arbitration_capability: VcArbitrationCapability {
                hardware_fixed_arbitration: r.t(0),
                wrr_32_phases: r.t(1),
                wrr_64_phases: r.t(2),
                wrr_128_phases: r.t(3),
                reserved: r.b(7, 4),
            },
            vc_arbitration_table_offset: r.b(31, 24),
        }
    }
    pub fn control(r: Reg) -> PortVcControl {
        PortVcControl {
            load_vc_arbitration_table: r.t(0),
            vc_arbitration_select: match r.b(3, 1) {
                0 => VcArbitrationSelect::HardwareFixedArbitration,
                1 => VcArbitrationSelect::Wrr32phases,
                2 => VcArbitrationSelect::Wrr64phases,
                3 => VcArbitrationSelect::Wrr128phases,
                v => VcArbitrationSelect::Reserved(v),
            },
        }
    }
    pub fn status(r: Reg) -> PortVcStatus {
        PortVcStatus { vc_arbitration_table_status: r.t(0) }
    }
    /// Number of phases of the selected VC arbitration scheme.
    pub fn vc_phases(select: u64) -> usize {
        [0, 32, 64, 128, 0, 0, 0, 0][select as usize]
    }
    pub fn port_phases(select: u64) -> usize {
        [0, 32, 64, 128, 128, 256, 0, 0][select as usize]
    }
    /// 4-bit entries, VC ID in bits 2:0 of each, low nibble first.
    pub fn vc_table(bytes: &[u8]) -> Vec<VcArbitrationTableEntry> {
        bytes
            .iter()
            .flat_map(|b| [b & 7, b >> 4 & 7])
            .map(|vc_id| VcArbitrationTableEntry { vc_id })
            .collect()
    }
    /// `bits`-wide entries, least significant first.
    pub fn entries(bytes: &[u8], bits: usize) -> Vec<u8> {
        let n = bytes.len() * 8 / bits;
        (0..n)
            .map(|i| {
                let mut v = 0;
                for b in 0..bits {
                    let p = i * bits + b;
                    v |= (bytes[p / 8] >> (p % 8) & 1) << b;
                }
                v
            })
            .collect()
    }
    pub struct Vc {
        pub cap1: PortVcCapability1,
        pub cap2: PortVcCapability2,
        pub ctl: PortVcControl,
        pub st: PortVcStatus,
        pub evcs: Vec<ExtendedVirtualChannel>,
    }
    pub fn evc(d: &[u8], o: usize) -> ExtendedVirtualChannel {
        let (c, k, s) = (r32(d, o), r32(d, o + 4), r16(d, o + 10));
        ExtendedVirtualChannel {
            vc_resource_capability: VcResourceCapability {
                port_arbitration_capability: PortArbitrationCapability {
                    hardware_fixed_arbitration: c.t(0),
                    wrr_32_phases: c.t(1),
                    wrr_64_phases: c.t(2),
                    wrr_128_phases: c.t(3),
                    time_based_wrr_128_phases: c.t(4),
                    wrr_256_phases: c.t(5),
                    reserved: c.b(7, 6),
                },
                advanced_packet_switching: c.t(14),
                reject_snoop_transactions: c.t(15),
                maximum_time_slots: c.b(22, 16),
                port_arbitration_table_offset: c.b(31, 24),
            },
            vc_resource_control: VcResourceControl {
                tc_or_vc_map: k.b(7, 0),
                load_port_arbitration_table: k.t(16),
                port_arbitration_select: match k.b(19, 17) {
                    0 => PortArbitrationSelect::HardwareFixedArbitration,
                    1 => PortArbitrationSelect::Wrr32phases,
                    2 => PortArbitrationSelect::Wrr64phases,
                    3 => PortArbitrationSelect::Wrr128phases,
                    4 => PortArbitrationSelect::TimeBasedWrr128phases,
                    5 => PortArbitrationSelect::Wrr256phases,
                    v => PortArbitrationSelect::Reserved(v),
                },
                vc_id: k.b(26, 24),
                vc_enable: k.t(31),
            },
            vc_resource_status: VcResourceStatus {
                port_arbitration_table_status: s.t(0),
                vc_negotiation_pending: s.t(1),
            },
        }
    }
    pub fn decode(d: &[u8]) -> Option<Vc> {
        need(d, 0x10)?;
        let c = r32(d, 4);
        let n = c.f(2, 0) as usize + 1;
        Some(Vc {
            cap1: PortVcCapability1 {
                extended_vc_count: c.b(2, 0),
                low_priority_extended_vc_count: c.b(6, 4),
                reference_clock: refclk(c.b(9, 8)),
                port_arbitration_table_entry_size: c.b(11, 10).into(),
            },
            cap2: cap2(r32(d, 8)),
            ctl: control(r16(d, 0xc)),
            st: status(r16(d, 0xe)),
            evcs: (0..n.min((d.len() - 0x10) / 12)).map(|i| evc(d, 0x10 + 12 * i)).collect(),
        })
    }
}

pub mod mfvc {
    use super::*;
    pub use multifunction_virtual_channel::*;
    pub struct Mfvc {
        pub cap1: PortVcCapability1,
        pub cap2: PortVcCapability2,
        pub ctl: PortVcControl,
        pub st: PortVcStatus,
        pub table: Option<Vec<virtual_channel::VcArbitrationTableEntry>>,
        pub evcs: Vec<(VcResourceCapability, VcResourceControl, VcResourceStatus, Option<Vec<u8>>)>,
    }
    pub fn decode(d: &[u8]) -> Result<Mfvc, MultifunctionVirtualChannelError> {
        use MultifunctionVirtualChannelError as E;
        if d.len() < 0x10 {
            return Err(E::PortVcData);
        }
        let (c, c2, k) = (r32(d, 4), r32(d, 8), r16(d, 0xc));
        let off = c2.f(31, 24) as usize * 16;
        let table = match off {
            0 => None,
            16 => return Err(E::VcArbitrationTableOffset),
            _ if off > d.len() => return Err(E::VcArbitrationTableData),
            _ => {
                let len = vc::vc_phases(k.f(3, 1)) / 2;
                if d.len() - off < len {
                    return Err(E::VcArbitrationTableLength { expected: len, real: d.len() - off });
                }
                Some(vc::vc_table(&d[off..off + len]))
            }
        };
        let n = (c.f(2, 0) as usize + 1).min((d.len() - 0x10) / 12);
        let bits = 1usize << c.f(11, 10);
        let evcs = (0..n)
            .map(|i| {
                let o = 0x10 + 12 * i;
                let (c, k, s) = (r32(d, o), r32(d, o + 4), r16(d, o + 10));
                let fo = c.f(31, 24) as usize * 16;
                let fl = vc::port_phases(k.f(19, 17)) * bits / 8;
                let fat = if fo >= 32 && fo <= d.len() && d.len() - fo >= fl {
                    Some(vc::entries(&d[fo..fo + fl], bits))
                } else {
                    None
                };
                (
                    VcResourceCapability {
                        function_arbitration_capability: FunctionArbitrationCapability {
                            hardware_fixed_arbitration: c.t(0),
                            wrr_32_phases: c.t(1),
                            wrr_64_phases: c.t(2),
                            wrr_128_phases: c.t(3),
                            time_based_wrr_128_phases: c.t(4),
                            wrr_256_phases: c.t(5),
                            reserved: c.b(7, 6),
                        },
                        maximum_time_slots: c.b(22, 16),
                        function_arbitration_table_offset: c.b(31, 24),
                    },
                    VcResourceControl {
                        tc_to_vc_map: k.b(7, 0),
                        load_function_arbitration_table: k.t(16),
                        function_arbitration_select: match k.b(19, 17) {
                            0 => FunctionArbitrationSelect::HardwareFixedArbitration,
                            1 => FunctionArbitrationSelect::Wrr32phases,
                            2 => FunctionArbitrationSelect::Wrr64phases,
                            3 => FunctionArbitrationSelect::Wrr128phases,
                            4 => FunctionArbitrationSelect::TimeBasedWrr128phases,
                            5 => FunctionArbitrationSelect::Wrr256phases,
                            v => FunctionArbitrationSelect::Reserved(v),
                        },
                        vc_id: k.b(26, 24),
                        vc_enable: k.t(31),
                    },
                    VcResourceStatus {
                        function_arbitration_table_status: s.t(0),
                        vc_negotiation_pending: s.t(1),
                    },
                    fat,
                )
            })
            .collect();
        Ok(Mfvc {
            cap1: PortVcCapability1 {
                extended_vc_count: c.b(2, 0),
                low_priority_extended_vc_count: c.b(6, 4),
                reference_clock: vc::refclk(c.b(9, 8)),
                function_arbitration_table_entry_size: FunctionArbitrationTableEntrySize(
                    c.b(11, 10),
                ),
            },
            cap2: vc::cap2(c2),
            ctl: vc::control(k),
            st: vc::status(r16(d, 0xe)),
            table,
            evcs,
        })
    }
}
