//! Reference decoding of the simple conventional capabilities. `d` starts right after the
//! two-byte capability header; `None` means "does not fit", which must be reported as an error.
use super::*;
use pcics::capabilities::*;
use pcics::header::{Header, HeaderType};

pub fn pmi(d: &[u8]) -> Option<PowerManagementInterface> {
    use power_management_interface::*;
    if d.len() < 6 {
        return None;
    }
    let (c, s, b) = (r16(d, 0), r16(d, 2), r8(d, 4));
    use AuxCurrent::*;
    use DataSelect as Ds;
    Some(PowerManagementInterface {
        capabilities: Capabilities {
            version: c.b(2, 0),
            pme_clock: c.t(3),
            immediate_readiness_on_return_to_d0: c.t(4),
            device_specific_initialization: c.t(5),
            aux_current: [
                SelfPowered,
                MaxCurrent55mA,
                MaxCurrent100mA,
                MaxCurrent160mA,
                MaxCurrent220mA,
                MaxCurrent270mA,
                MaxCurrent320mA,
                MaxCurrent375mA,
            ][c.f(8, 6) as usize],
            d1_support: c.t(9),
            d2_support: c.t(10),
            pme_support: PmeSupport {
                d0: c.t(11),
                d1: c.t(12),
                d2: c.t(13),
                d3_hot: c.t(14),
                d3_cold: c.t(15),
            },
        },
        control: Control {
            power_state: [PowerState::D0, PowerState::D1, PowerState::D2, PowerState::D3Hot]
                [s.f(1, 0) as usize],
            no_soft_reset: s.t(3),
            pme_enabled: s.t(8),
            data_select: match s.b(12, 9) {
                0 => Ds::PowerConsumedD0,
                1 => Ds::PowerConsumedD1,
                2 => Ds::PowerConsumedD2,
                3 => Ds::PowerConsumedD3,
                4 => Ds::PowerDissipatedD0,
                5 => Ds::PowerDissipatedD1,
                6 => Ds::PowerDissipatedD2,
                7 => Ds::PowerDissipatedD3,
                8 => Ds::CommonLogic,
                v => Ds::Reserved(v),
            },
            data_scale: [
                DataScale::Unknown,
                DataScale::Tenth,
                DataScale::Hundredth,
                DataScale::Thousandth,
            ][s.f(14, 13) as usize],
            pme_status: s.t(15),
        },
        bridge: Bridge {
            reserved: b.b(5, 0),
            b2_b3: b.t(6),
            bpcc_enabled: b.t(7),
        },
        data: d[5],
    })
}

pub fn pmi_data(p: &PowerManagementInterface) -> Option<power_management_interface::Data> {
    (p.data != 0).then(|| power_management_interface::Data {
        value: p.data,
        select: p.control.data_select,
        scale: p.control.data_scale,
    })
}

pub fn agp(d: &[u8]) -> Option<AcceleratedGraphicsPort> {
    use accelerated_graphics_port::*;
    if d.len() < 10 {
        return None;
    }
    let cal = |v: u8| match v {
        0 => CalCycle::Period4ms,
        1 => CalCycle::Period16ms,
        2 => CalCycle::Period64ms,
        3 => CalCycle::Period256ms,
        7 => CalCycle::CalibrationCycleNotNeeded,
        v => CalCycle::Reserved(v),
    };
    let (i, s, c) = (r16(d, 0), r32(d, 2), r32(d, 6));
    let isoch = s.t(17);
    // offsets below are relative to the end of the 2-byte capability header
    let has = |end: usize| d.len() >= end;
    Some(AcceleratedGraphicsPort {
        identifier: Identifier {
            minor: i.b(3, 0),
            major: i.b(7, 4),
        },
        status: Status {
            rq: s.b(31, 24),
            isoch_support: isoch,
            reserved: s.t(16),
            arqsz: s.b(15, 13),
            cal_cycle: cal(s.b(12, 10)),
            sba: s.t(9),
            ita_coh: s.t(8),
            gart64b: s.t(7),
            htrans: s.t(6),
            over4g: s.t(5),
            fw: s.t(4),
            agp_3_0_mode: s.t(3),
            rate: match s.b(2, 0) {
                1 => DataRateSupport::Speed4x,
                2 => DataRateSupport::Speed8x,
                3 => DataRateSupport::Speed4xAnd8x,
                v => DataRateSupport::Reserved(v),
            },
        },
        command: Command {
            prq: c.b(31, 24),
            parqsz: c.b(15, 13),
            pcal_cycle: cal(c.b(12, 10)),
            sba_enable: c.t(9),
            agp_enable: c.t(8),
            gart64b: c.t(7),
            over4g: c.t(5),
            fw_enable: c.t(4),
            drate: match c.b(2, 0) {
                1 => DataRateEnabled::Speed4x,
                2 => DataRateEnabled::Speed8x,
                v => DataRateEnabled::Reserved(v),
            },
        },
        isochronous_status: (isoch && has(14)).then(|| {
            let r = r32(d, 10);
            IsochronousStatus {
                maxbw: r.b(23, 16),
                isoch_n: r.b(15, 8),
                isoch_y: IsochY(r.b(7, 6)),
                isoch_l: r.b(5, 3),
                isoch_error_code: IsochErrorCode(r.b(1, 0)),
            }
        }),
        control: has(18).then(|| {
            let r = r32(d, 14);
            Control {
                cal_cycle_dis: r.t(9),
                aperenb: r.t(8),
                gtlben: r.t(7),
            }
        }),
        aperture_size: has(20).then(|| ApertureSize(u16at(d, 18))),
        enabled_aperture_page_size: has(22).then(|| EnabledAperturePageSize(u16at(d, 20))),
        gart_pointer: has(26).then(|| GartPointer {
            gartlo: u32at(d, 22),
            garthi: if has(30) { u32at(d, 26) } else { 0 },
        }),
        isochronous_command: (isoch && has(32)).then(|| {
            let r = r16(d, 30);
            IsochronousCommand {
                pisoch_n: r.b(15, 8),
                pisoch_y: r.b(7, 6),
            }
        }),
    })
}

pub fn vpd(d: &[u8]) -> Option<VitalProductData> {
    if d.len() < 6 {
        return None;
    }
    Some(VitalProductData {
        vpd_address: r16(d, 0).w(14, 0),
        transfer_completed: r16(d, 0).t(15),
        vpd_data: u32at(d, 2),
    })
}

pub fn slot_id(d: &[u8]) -> Option<SlotIdentification> {
    if d.len() < 2 {
        return None;
    }
    Some(SlotIdentification {
        expansion_slot: slot_identification::ExpansionSlot {
            expansion_slots_provided: d[0] & 0x1f,
            first_in_chassis: d[0] & 0x20 != 0,
        },
        chassis_number: d[1],
    })
}

pub fn msi(d: &[u8]) -> Option<MessageSignaledInterrups> {
    use message_signaled_interrups::*;
    if d.len() < 2 {
        return None;
    }
    let c = r16(d, 0);
    let (q, pvm) = (c.t(7), c.t(8));
    let data = if q { 10 } else { 6 };
    let need = data + 4 + if pvm { 8 } else { 0 };
    if d.len() < need {
        return None;
    }
    Some(MessageSignaledInterrups {
        message_control: MessageControl {
            msi_enable: c.t(0),
            multiple_message_capable: MultipleMessage(c.b(3, 1)),
            multiple_message_enable: MultipleMessage(c.b(6, 4)),
            a_64_bit_address_capable: q,
            per_vector_masking_capable: pvm,
            extended_message_data_capable: c.t(9),
            extended_message_data_enable: c.t(10),
        },
        message_address: if q {
            MessageAddress::Qword(u64at(d, 2))
        } else {
            MessageAddress::Dword(u32at(d, 2))
        },
        message_data: u16at(d, data),
        extended_message_data: u16at(d, data + 2),
        mask_bits: pvm.then(|| u32at(d, data + 4)),
        pending_bits: pvm.then(|| u32at(d, data + 8)),
    })
}

/// Payload of a vendor specific capability and its Virtio reading
pub fn vendor_specific<'a>(d: &'a [u8], h: &Header) -> Option<VendorSpecific<'a>> {
    use vendor_specific::*;
    let len = *d.first()? as usize;
    // the length byte counts the whole structure: id, next, length and payload
    if len < 3 || d.len() < len - 2 {
        return None;
    }
    let p = &d[1..len - 2];
    if h.vendor_id != 0x1af4 || h.device_id < 0x1000 || h.device_id > 0x107f {
        return Some(VendorSpecific::Unspecified(p));
    }
    if p.len() < 13 {
        return None;
    }
    let (bar, offset, size) = (p[1], u32at(p, 5), u32at(p, 9));
    Some(VendorSpecific::Virtio(match p[0] {
        1 => Virtio::CommonCfg { bar, offset, size },
        2 => Virtio::Notify {
            bar,
            offset,
            size,
            multiplier: (p.len() >= 17).then(|| u32at(p, 13)),
        },
        3 => Virtio::Isr { bar, offset, size },
        4 => Virtio::DeviceCfg { bar, offset, size },
        _ => Virtio::Unknown { bar, offset, size },
    }))
}

pub fn debug_port(d: &[u8]) -> Option<DebugPort> {
    if d.len() < 2 {
        return None;
    }
    let r = r16(d, 0);
    Some(DebugPort {
        offset: r.w(12, 0),
        bar_number: r.b(15, 13),
    })
}

pub fn ssvid(d: &[u8]) -> Option<BridgeSubsystemVendorId> {
    if d.len() < 6 {
        return None;
    }
    Some(BridgeSubsystemVendorId {
        reserved: u16at(d, 0),
        subsystem_vendor_id: u16at(d, 2),
        subsystem_id: u16at(d, 4),
    })
}

pub fn msix(d: &[u8]) -> Option<MsiX> {
    use msi_x::*;
    if d.len() < 10 {
        return None;
    }
    let c = r16(d, 0);
    let bir = |v: u32| match v & 7 {
        0 => Bir::Bar10h,
        1 => Bir::Bar14h,
        2 => Bir::Bar18h,
        3 => Bir::Bar1Ch,
        4 => Bir::Bar20h,
        5 => Bir::Bar24h,
        v => Bir::Reserved(v as u8),
    };
    let (t, p) = (u32at(d, 2), u32at(d, 6));
    Some(MsiX {
        message_control: MessageControl {
            table_size: c.w(10, 0),
            function_mask: c.t(14),
            msi_x_enable: c.t(15),
        },
        table: Table {
            bir: bir(t),
            offset: t & !7,
        },
        pending_bit_array: PendingBitArray {
            bir: bir(p),
            offset: p & !7,
        },
    })
}

pub fn sata(d: &[u8]) -> Option<Sata> {
    use sata::*;
    if d.len() < 6 {
        return None;
    }
    let r = r32(d, 2);
    Some(Sata {
        revision: Revision {
            minor: d[0] & 0xf,
            major: d[0] >> 4,
        },
        bar_offset: BarOffset(r.d(23, 4)),
        bar_location: match r.b(3, 0) {
            4 => BarLocation::Bar0,
            5 => BarLocation::Bar1,
            6 => BarLocation::Bar2,
            7 => BarLocation::Bar3,
            8 => BarLocation::Bar4,
            9 => BarLocation::Bar5,
            15 => BarLocation::SataCapability1,
            v => BarLocation::Reserved(v),
        },
    })
}

pub fn af(d: &[u8]) -> Option<AdvancedFeatures> {
    use advanced_features::*;
    if d.len() < 4 {
        return None;
    }
    Some(AdvancedFeatures {
        length: d[0],
        capabilities: Capabilities {
            transactions_pending: d[1] & 1 != 0,
            function_level_reset: d[1] & 2 != 0,
        },
        control: Control {
            initiate_flr: d[2] & 1 != 0,
        },
        status: Status {
            transactions_pending: d[3] & 1 != 0,
        },
    })
}

/// Reference walk of Enhanced Allocation entries.
pub struct Ea {
    pub num_entries: u8,
    pub type_1: Option<enhanced_allocation::Type1SecondDw>,
    pub entries: Vec<enhanced_allocation::EnhancedAllocationEntry>,
}

pub fn ea(d: &[u8], h: &Header) -> Option<Ea> {
    use enhanced_allocation::*;
    if d.len() < 2 {
        return None;
    }
    let n = d[0] & 0x3f;
    let bridge = matches!(h.header_type, HeaderType::Bridge(_));
    if bridge && d.len() < 6 {
        return None;
    }
    let mut at = if bridge { 6 } else { 2 };
    let mut entries = vec![];
    for _ in 0..n {
        let e = &d[at..];
        if e.len() < 12 {
            break;
        }
        let (w, b, m) = (r32(e, 0), u32at(e, 4), u32at(e, 8));
        let mut pos = 12;
        let mut upper = |is64: bool| -> Option<u64> {
            if is64 {
                if e.len() < pos + 4 {
                    return None;
                }
                pos += 4;
                Some(u32at(e, pos - 4) as u64)
            } else {
                Some(0)
            }
        };
        let (b64, m64) = (b & 2 != 0, m & 2 != 0);
        let Some(bh) = upper(b64) else { break };
        let Some(mh) = upper(m64) else { break };
        let step = if cfg!(feature = "ea_real") {
            pos
        } else {
            4 * (w.f(2, 0) as usize + 1)
        };
        if e.len() < step {
            break;
        }
        use BarEquivalentIndicator as B;
        let prop = |v: u8| match v {
            0 => ResourceDefinition::MemorySpaceNonPrefetchable,
            1 => ResourceDefinition::MemorySpacePrefetchable,
            2 => ResourceDefinition::IoSpace,
            3 => ResourceDefinition::PfForVfMemorySpacePrefetchable,
            4 => ResourceDefinition::PfForVfMemorySpaceNonPrefetchable,
            5 => ResourceDefinition::Type1ForAbbMemoryNonPrefetchable,
            6 => ResourceDefinition::Type1ForAbbMemoryPrefetchable,
            7 => ResourceDefinition::Type1ForAbbIoSpace,
            0xfd => ResourceDefinition::UnavailableMemorySpace,
            0xfe => ResourceDefinition::UnavailableIoSpace,
            0xff => ResourceDefinition::Unavailable,
            v => ResourceDefinition::Reserved(v),
        };
        entries.push(EnhancedAllocationEntry {
            entry_size: w.b(2, 0),
            bar_equivalent_indicator: [
                B::Location10h,
                B::Location14h,
                B::Location18h,
                B::Location1Ch,
                B::Location20h,
                B::Location24h,
                B::BehindType1Function,
                B::EquivalentNotIndicated,
                B::ExpansionRomBaseAddress,
                B::VfBar0,
                B::VfBar1,
                B::VfBar2,
                B::VfBar3,
                B::VfBar4,
                B::VfBar5,
                B::Reserved,
            ][w.f(7, 4) as usize]
                .clone(),
            primary_properties: prop(w.b(15, 8)),
            secondary_properties: prop(w.b(23, 16)),
            writable: w.t(30),
            enable: w.t(31),
            base: if b64 {
                ResourceRangeAddress::U64(bh << 32 | (b & !3) as u64)
            } else {
                ResourceRangeAddress::U32(b & !3)
            },
            max_offset: if m64 {
                ResourceRangeAddress::U64(mh << 32 | (m | 3) as u64)
            } else {
                ResourceRangeAddress::U32(m | 3)
            },
        });
        at += step;
    }
    Some(Ea {
        num_entries: n,
        type_1: bridge.then(|| Type1SecondDw {
            fixed_secondary_bus_number: d[2],
            fixed_subordinate_bus_number: d[3],
        }),
        entries,
    })
}

pub fn fpb(d: &[u8]) -> Option<FlatteningPortalBridge> {
    use flattening_portal_bridge::*;
    if d.len() < 34 {
        return None;
    }
    let (c, r1, r2, ml, mh1, mh2, va) = (
        r32(d, 2),
        r32(d, 6),
        r32(d, 10),
        r32(d, 14),
        r32(d, 18),
        u32at(d, 22),
        r32(d, 26),
    );
    // "start" addresses are aligned to the selected granularity; the shift of a reserved
    // granularity is taken modulo the register width
    let (rg, lg, hg) = (r1.b(7, 4), ml.b(7, 4), mh1.b(7, 4));
    let rmask = u16::MAX << ((3 + rg as u32) % 16);
    let lmask = u32::MAX << ((20 + lg as u32) % 32);
    let hmask = u64::MAX << (28 + hg as u32);
    Some(FlatteningPortalBridge {
        reserved: u16at(d, 0),
        fpb_capabilities: FpbCapabilities {
            fpb_rid_decode_mechanism_supported: c.t(0),
            fpb_mem_low_decode_mechanism_supported: c.t(1),
            fpb_mem_high_decode_mechanism_supported: c.t(2),
            fpb_num_sec_dev: c.b(7, 3),
            fpb_rid_vector_size_supported: {
                use FpbRidVectorSizeSupported as X;
                match c.b(10, 8) {
                    0 => X::Size256bits,
                    2 => X::Size1Kbits,
                    5 => X::Size8kbits,
                    v => X::Reserved(v),
                }
            },
            fpb_mem_low_vector_size_supported: {
                use FpbMemLowVectorSizeSupported as X;
                match c.b(18, 16) {
                    0 => X::Size256bits,
                    1 => X::Size512bits,
                    2 => X::Size1Kbits,
                    3 => X::Size2Kbits,
                    4 => X::Size4Kbits,
                    v => X::Reserved(v),
                }
            },
            fpb_mem_high_vector_size_supported: {
                use FpbMemHighVectorSizeSupported as X;
                match c.b(26, 24) {
                    0 => X::Size256bits,
                    1 => X::Size512bits,
                    2 => X::Size1Kbits,
                    3 => X::Size2Kbits,
                    4 => X::Size4Kbits,
                    5 => X::Size8Kbits,
                    v => X::Reserved(v),
                }
            },
        },
        fpb_rid_vector_control: FpbRidVectorControl {
            fpb_rid_decode_mechanism_enable: r1.t(0),
            fpb_rid_vector_granularity: match rg {
                0 => FpbRidVectorGranularity::Granularity8RIDs,
                3 => FpbRidVectorGranularity::Granularity64RIDs,
                5 => FpbRidVectorGranularity::Granularity256RIDs,
                v => FpbRidVectorGranularity::Reserved(v),
            },
            fpb_rid_vector_start: (r1.w(31, 19) << 3) & rmask,
            rid_secondary_start: r2.w(15, 3),
        },
        fpb_mem_low_vector_control: FpbMemLowVectorControl {
            fpb_mem_low_decode_mechanism_enable: ml.t(0),
            fpb_mem_low_vector_granularity: {
                use FpbMemLowVectorGranularity as X;
                match lg {
                    0 => X::Granularity1MB,
                    1 => X::Granularity2MB,
                    2 => X::Granularity4MB,
                    3 => X::Granularity8MB,
                    4 => X::Granularity16MB,
                    v => X::Reserved(v),
                }
            },
            fpb_mem_low_vector_start: (ml.d(31, 20) << 20) & lmask,
        },
        fpb_mem_high_vector_control: FpbMemHighVectorControl {
            fpb_mem_high_decode_mechanism_enable: mh1.t(0),
            fpb_mem_high_vector_granularity: {
                use FpbMemHighVectorGranularity as X;
                match hg {
                    0 => X::Granularity256MB,
                    1 => X::Granularity512MB,
                    2 => X::Granularity1GB,
                    3 => X::Granularity2GB,
                    4 => X::Granularity4GB,
                    5 => X::Granularity8GB,
                    6 => X::Granularity16GB,
                    7 => X::Granularity32GB,
                    v => X::Reserved(v),
                }
            },
            fpb_mem_high_vector_start: ((mh2 as u64) << 32 | mh1.f(31, 28) << 28) & hmask,
        },
        fpb_vector_access_control: FpbVectorAccessControl {
            fpb_vector_access_offset: va.b(7, 0),
            fpb_vector_select: match va.b(15, 14) {
                0 => FpbVectorSelect::Rid,
                1 => FpbVectorSelect::MemLow,
                2 => FpbVectorSelect::MemHigh,
                _ => FpbVectorSelect::Reserved,
            },
        },
        fpb_vector_access_data: u32at(d, 30),
    })
}
