//! Values that can be turned back into register bytes: encoding what was decoded restores the
//! register, up to bits the decoded value does not represent.
use crate::engine::*;
use crate::gen::*;
use crate::model::header as mh;
use crate::raw::*;
use pcics::capabilities::{accelerated_graphics_port as agp, hypertransport as ht, pci_express as pe, power_management_interface as pm};
use pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device as cxl;
use pcics::extended_capabilities::{
    l1_pm_substates as l1, latency_tolerance_reporting as ltr, multifunction_virtual_channel as mf, protocol_multiplexing as pmux,
    root_complex_link_declaration as rcld, virtual_channel as vc,
};
use pcics::header::*;

/// Field of `width` bits: every value survives decode + encode.
fn field<T>(out: &mut Out, name: &'static str, width: u32)
where
    T: From<u8> + Clone + PartialEq + std::fmt::Debug,
    u8: From<T>,
{
    for v in 0..1u32 << width {
        let v = v as u8;
        out.case("encode", &[v], &[], || name.to_string(), |o| {
            let t = T::from(v);
            let back = u8::from(t.clone());
            o.eq(c(22), name, &back, &v);
            o.eq(c(22), name, &T::from(back), &t);
            o.note_distinct(judge_key(name, v as u64));
        });
        out.count("encodings");
    }
}
fn judge_key(name: &str, v: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (h ^ v).wrapping_mul(0x9e3779b97f4a7c15)
}

fn bars<const N: usize>(out: &mut Out, regs: [u32; N]) {
    let mut raw = vec![];
    for r in regs {
        raw.extend_from_slice(&r.to_le_bytes());
    }
    out.case("encode", &raw, &[], || format!("base addresses [{N}]"), |o| {
        // what the registers say, by the reference walk; what cannot be represented is the
        // address in a lone 64-bit register
        let list = mh::bars(&regs);
        let mut exp = [0u32; N];
        let mut i = 0;
        while i < N {
            exp[i] = regs[i];
            let v = regs[i];
            if v & 1 == 1 {
                exp[i] = v & !2;
            } else if v & 6 == 4 {
                if i + 1 < N {
                    exp[i + 1] = regs[i + 1];
                } else {
                    exp[i] = v & 0xf;
                }
                i += 1;
            }
            i += 1;
        }
        let a: [u32; N] = list.iter().cloned().collect();
        o.eq(c(22), "registers from reference list", &a, &exp);
        let b: [u32; N] = list.iter().collect();
        o.eq(c(22), "registers from borrowed list", &b, &exp);
        let d: [u32; N] = BaseAddresses::new(regs).collect();
        o.eq(c(22) | c(6), "registers from decoded list", &d, &exp);
        let again: Vec<_> = BaseAddresses::new(d).collect();
        o.eq(c(22) | c(6), "list after encoding", &again, &list);
        // a caller's address that is not aligned must not spill into the type and flag bits
        let low = (regs[0] >> 7 | 5).wrapping_mul(0x9e37_79b1) >> 16;
        let f: [u32; N] = list
            .iter()
            .cloned()
            .map(|mut x| {
                match &mut x.base_address_type {
                    BaseAddressType::MemorySpace32 { base_address, .. }
                    | BaseAddressType::MemorySpaceBelow1M { base_address, .. }
                    | BaseAddressType::MemorySpaceReserved { base_address, .. } => *base_address |= low & 0xf,
                    BaseAddressType::MemorySpace64 { base_address, .. } => *base_address |= low as u64 & 0xf,
                    BaseAddressType::IoSpace { base_address } => *base_address |= low & 3,
                    BaseAddressType::MemorySpace64Broken { .. } => (),
                }
                x
            })
            .collect();
        o.eq(c(22), "registers from a list of unaligned addresses", &f, &exp);
        // order of the list does not matter
        let e: [u32; N] = list.iter().rev().collect();
        let only64 = list.iter().any(|x| matches!(x.base_address_type, BaseAddressType::MemorySpace64 { .. }));
        if !only64 {
            o.eq(c(22), "registers from reversed list", &e, &exp);
        }
        if regs.iter().any(|r| *r != 0) {
            o.note_distinct(judge_key("bar", regs.iter().fold(0, |h, r| (h ^ *r as u64).wrapping_mul(0x9e3779b97f4a7c15))));
        }
    });
    out.count("bar_encodings");
}

/// Base address registers with every type in every place.
pub fn bar_value(r: &mut Rng) -> u32 {
    let a = match r.below(4) {
        0 => 0,
        1 => 0xffff_fff0,
        2 => 1 << (4 + r.below(28)),
        _ => (r.next() >> 20) as u32 & !0xf,
    };
    match r.below(8) {
        0 => 0,
        1 => (r.next() >> 20) as u32,
        _ => a | r.below(16) as u32,
    }
}

pub fn all(run: &mut Run) {
    let seed = run.seed;
    let rounds = run.pick(1_500_000, 8_000_000);
    run.tasks(1, |_, out| {
        field::<pm::DataSelect>(out, "PM data select", 4);
        field::<pe::LinkSpeed>(out, "link speed", 4);
        field::<pe::LinkWidth>(out, "link width", 6);
        field::<pe::CompletionTimeoutRanges>(out, "completion timeout ranges", 4);
        field::<pe::TphCompleter>(out, "TPH completer", 2);
        field::<pe::LnSystemCls>(out, "LN system CLS", 2);
        field::<pe::Obff>(out, "OBFF supported", 2);
        field::<pe::MaxEndEndTlpPrefixes>(out, "max end-end TLP prefixes", 2);
        field::<pe::EmergencyPowerReduction>(out, "emergency power reduction", 2);
        field::<pe::CompletionTimeoutValue>(out, "completion timeout value", 4);
        field::<pe::ObffEnable>(out, "OBFF enable", 2);
        field::<agp::CalCycle>(out, "AGP calibration cycle", 3);
        field::<agp::DataRateSupport>(out, "AGP data rate support", 3);
        field::<agp::DataRateEnabled>(out, "AGP data rate enabled", 3);
        field::<cxl::CacheSfCoverage>(out, "snoop filter coverage", 5);
        field::<l1::PortTPowerOnScale>(out, "T power on scale", 2);
        field::<mf::FunctionArbitrationSelect>(out, "function arbitration select", 3);
        field::<vc::PortArbitrationSelect>(out, "port arbitration select", 3);
        field::<rcld::ElementType>(out, "element type", 4);
        field::<InterruptPin>(out, "interrupt pin", 8);
        for b in [false, true] {
            out.case("encode", &[b as u8], &[], || "prefix blocking".into(), |o| {
                o.eq(c(22), "prefix blocking", &bool::from(pe::EndEndTlpPrefixBlocking::from(b)), &b);
            });
        }
        for v in 0..=255u8 {
            out.case("encode", &[v], &[], || "byte registers".into(), |o| {
                o.eq(c(22), "BIST", &u8::from(BuiltInSelfTest::from(v)), &(v & 0xcf));
                o.eq(c(22), "HT revision", &u8::from(&ht::RevisionId::from(v)), &v);
                let s = l1::PortTPowerOn { value: v >> 3, scale: (v & 3).into() };
                o.eq(c(22), "T power on", &u8::from(s), &(v & 0xfb));
                let f = mf::FunctionArbitrationCapability {
                    hardware_fixed_arbitration: v & 1 != 0,
                    wrr_32_phases: v & 2 != 0,
                    wrr_64_phases: v & 4 != 0,
                    wrr_128_phases: v & 8 != 0,
                    time_based_wrr_128_phases: v & 16 != 0,
                    wrr_256_phases: v & 32 != 0,
                    reserved: v >> 6,
                };
                o.eq(c(22), "function arbitration capability", &u8::from(f), &v);
            });
        }
        for v in 0..=0xffffu16 {
            out.case("encode", &v.to_le_bytes(), &[], || "word registers".into(), |o| {
                o.eq(c(22), "LTR latency", &u16::from(ltr::MaxLatency::from(v)), &(v & 0x1fff));
                o.eq(c(22), "MFVC resource status", &u16::from(mf::VcResourceStatus::from(v)), &(v & 3));
            });
        }
        out.add("encodings", 65536 * 2 + 256 * 4);
        out.sample(|| "every value of each encodable field; every 16-bit latency and status word".into());
    });
    // wider registers
    run.tasks(64, |i, out| {
        let mut r = Rng::new(seed, 700_000 + i as u64, 7);
        for k in 0..rounds / 64 {
            // bit walks first, then patterns
            let v: u64 = if k < 64 {
                1 << k
            } else if k < 128 {
                !(1 << (k - 64))
            } else {
                let mut b = [0; 8];
                let bg = background(&mut r, 8);
                b.copy_from_slice(&bg);
                u64::from_le_bytes(b)
            };
            wide(out, v, r.next());
            out.add("encodings", 1);
            bars(out, [bar_value(&mut r), bar_value(&mut r), bar_value(&mut r), bar_value(&mut r), bar_value(&mut r), bar_value(&mut r)]);
            bars(out, [bar_value(&mut r), bar_value(&mut r)]);
            bars(out, [bar_value(&mut r)]);
            if out.stopped() {
                return;
            }
        }
        out.sample(|| {
            let x: Vec<String> = (0..6).map(|_| format!("{:08x}", bar_value(&mut r))).collect();
            format!("base address registers {}", x.join(" "))
        });
    });
}

fn wide(out: &mut Out, v: u64, x: u64) {
    let (a, b) = (v as u32, (v >> 32) as u32);
    out.case("encode", &v.to_le_bytes(), &x.to_le_bytes(), || "wide registers".into(), |o| {
        let t = c(22);
        // expansion ROM
        let rom = ExpansionRom::from(a);
        o.eq(t, "expansion ROM", &u32::from(rom.clone()), &a);
        o.eq(t, "expansion ROM as u64", &u64::from(rom), &(a as u64));
        let m = mh::rom(a);
        o.eq(t, "expansion ROM from reference", &u32::from(m), &a);
        // CardBus I/O window
        let w = [[a as u16, (a >> 16) as u16], [b as u16, (b >> 16) as u16]];
        let e = match a & 3 {
            0 => [[w[0][0], 0], [w[1][0] & !3, 0]],
            _ => [w[0], [w[1][0] & !3, w[1][1]]],
        };
        let io = IoAccessAddressRange::from(w);
        o.eq(t, "I/O window", &<[[u16; 2]; 2]>::from(io.clone()), &e);
        o.eq(t, "I/O window after encoding", &IoAccessAddressRange::from(e), &io);
        o.eq(t | c(7), "I/O window from reference", &<[[u16; 2]; 2]>::from(mh::cb_io(a, b)), &e);
        o.eq(t | c(7), "I/O window from words", &IoAccessAddressRange::from([w[0][0], w[0][1], w[1][0], w[1][1]]), &io);
        let mut un = mh::cb_io(a, b);
        match &mut un {
            IoAccessAddressRange::Addr16Bit { base, .. } => *base |= x as u16 & 3,
            IoAccessAddressRange::Addr32Bit { base, .. } => *base |= x as u32 & 3,
            IoAccessAddressRange::Unknown { base_lower, .. } => *base_lower |= x as u16 & 3,
        }
        o.eq(t, "I/O window from an unaligned base", &<[[u16; 2]; 2]>::from(un), &e);
        // L1 PM substates
        let r = Reg(a as u64);
        let on = |v: u8, s: u8| l1::PortTPowerOn { value: v, scale: s.into() };
        let cap = l1::L1PmSubstatesCapabilities {
            pci_pm_l1_2_supported: r.t(0),
            pci_pm_l1_1_supported: r.t(1),
            aspm_l1_2_supported: r.t(2),
            aspm_l1_1_supported: r.t(3),
            l1_pm_substates_supported: r.t(4),
            port_common_mode_restore_time: r.b(15, 8),
            port_t_power_on: on(r.b(23, 19), r.b(17, 16)),
        };
        o.eq(t, "L1 PM capabilities", &u32::from(cap), &(a & 0x00fb_ff1f));
        let ctl = l1::L1PmSubstatesControl1 {
            pci_pm_l1_2_enable: r.t(0),
            pci_pm_l1_1_enable: r.t(1),
            aspm_l1_2_enable: r.t(2),
            aspm_l1_1_enable: r.t(3),
            common_mode_restore_time: r.b(15, 8),
            ltr_l1_2_threshold: ltr::MaxLatency { value: r.w(25, 16), scale: r.b(31, 29) },
        };
        o.eq(t, "L1 PM control 1", &u32::from(ctl), &(a & 0xe3ff_ff0f));
        let ctl2 = l1::L1PmSubstatesControl2 { t_power_on: on(r.b(7, 3), r.b(1, 0)) };
        o.eq(t, "L1 PM control 2", &u32::from(ctl2), &(a & 0xfb));
        // through the decoder as well
        let mut d = [0u8; 12];
        d[0..4].copy_from_slice(&a.to_le_bytes());
        d[4..8].copy_from_slice(&b.to_le_bytes());
        d[8..12].copy_from_slice(&(x as u32).to_le_bytes());
        if let Ok(p) = pcics::extended_capabilities::L1PmSubstates::try_from(&d[..]) {
            o.eq(t, "decoded L1 PM capabilities", &u32::from(p.l1_pm_substates_capabilities), &(a & 0x00fb_ff1f));
            o.eq(t, "decoded L1 PM control 1", &u32::from(p.l1_pm_substates_control_1), &(b & 0xe3ff_ff0f));
            o.eq(t, "decoded L1 PM control 2", &u32::from(p.l1_pm_substates_control_2), &(x as u32 & 0xfb));
        } else {
            o.miss(t, || "complete L1 PM substates structure refused".into());
        }
        // MFVC resources
        o.eq(t, "MFVC resource capability", &u32::from(mf::VcResourceCapability::from(a)), &(a & 0xff7f_00ff));
        o.eq(t, "MFVC resource control", &u32::from(mf::VcResourceControl::from(a)), &(a & 0x870f_00ff));
        let mut e = [0u8; 12];
        e[..8].copy_from_slice(&v.to_le_bytes());
        e[8..].copy_from_slice(&(x as u32).to_le_bytes());
        let mut exp = e;
        for (i, m) in [0xff, 0, 0x7f, 0xff, 0xff, 0, 0x0f, 0x87, 0, 0, 3, 0].iter().enumerate() {
            exp[i] &= m;
        }
        let evc = mf::ExtendedVirtualChannel::from(e);
        o.eq(t, "MFVC resource", &<[u8; 12]>::from(evc.clone()), &exp);
        o.eq(t, "MFVC resource after encoding", &mf::ExtendedVirtualChannel::from(exp), &evc);
        // PMUX entry
        let p = pmux::PmuxProtocolArrayEntry { protocol_id: a as u16, authority_id: (a >> 16) as u16 };
        o.eq(t, "PMUX entry", &<[u8; 4]>::from(p.clone()), &a.to_le_bytes());
        o.eq(t, "PMUX entry after encoding", &pmux::PmuxProtocolArray::new(&a.to_le_bytes()).next(), &Some(p));
        // link address
        for ty in 0..2 {
            let la = rcld::LinkAddress::new(ty, a, b);
            o.eq(t | c(18), "link address", &la, &link_address(ty, a, b));
            o.eq(t, "encoded link address", &<[u32; 2]>::from(la), &[a, b]);
            o.eq(t, "encoded reference link address", &<[u32; 2]>::from(link_address(ty, a, b)), &[a, b]);
        }
        if v != 0 {
            o.note_distinct(judge_key("wide", v));
        }
    });
}

pub fn link_address(ty: u8, a: u32, b: u32) -> rcld::LinkAddress {
    let q = (b as u64) << 32 | a as u64;
    if ty == 0 {
        return rcld::LinkAddress::MemoryMappedSpace(q);
    }
    let r = Reg(q);
    let n = if r.f(2, 0) == 0 { 8 } else { r.f(2, 0) as u32 };
    rcld::LinkAddress::ConfigurationSpace {
        n: n as u8,
        reserved: r.w(11, 3),
        function: r.b(14, 12),
        device: r.b(19, 15),
        bus: r.f(19 + n, 20) as u8,
        address: q >> (20 + n) << (20 + n),
    }
}
