//! Workloads particular to one property.
use crate::encode::bar_value;
use crate::engine::*;
use crate::gen::*;
use crate::judge::{self, dbg_hash, Sink};
use crate::model::{ext2, header as mh};
use crate::raw::*;
use crate::work::*;
use pcics::capabilities::{self as caps, Capabilities};
use pcics::extended_capabilities::{self as ecaps, ExtendedCapabilities};
use pcics::header::*;
use std::fmt::{Debug, Write};

/// What follows ": " or opens a tuple in derived `Debug` text: the values, without field names.
fn values(t: &str) -> Vec<String> {
    let inner = t.split_once('{').map_or(t, |x| x.1);
    inner
        .trim_end_matches([' ', '}'])
        .split(", ")
        .map(|f| f.split_once(": ").map_or(f, |x| x.1).trim().to_string())
        .collect()
}

pub fn lane_equalization(run: &mut Run) {
    run.tasks(16, |i, out| {
        for k in 0..4096u16 {
            let v = (i as u16) << 12 | k;
            out.case("lane", &v.to_le_bytes(), &[], || "lane equalization control register".into(), |o| {
                let got = ecaps::secondary_pci_express::LaneEqualizationControl::from(v);
                o.eq(c(15), "lane presets and hints", &values(&format!("{got:?}")), &values(&ext2::sec::lane_debug(v)));
            });
        }
    });
}

pub fn arbitration_entries(run: &mut Run) {
    run.tasks(1, |_, out| {
        for v in 0..=255u8 {
            out.case("entry", &[v], &[], || "8-bit arbitration table entry".into(), |o| {
                for t in [format!("{:?}", judge::port_entry(v)), format!("{:?}", judge::function_entry(v))] {
                    let n: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
                    o.eq(c(17), "entry value", &n, &v.to_string());
                }
            });
        }
    });
    // tables on their own: every entry size over arbitrary bytes
    let (seed, n) = (run.seed, run.pick(60_000, 500_000));
    run.tasks(16, |i, out| {
        let mut r = Rng::new(seed, 810_000 + i as u64, 1);
        for _ in 0..n / 16 {
            let k = r.below(140);
            let b = background(&mut r, k);
            out.case("table", &b, &[], || "arbitration table".into(), |o| {
                for bits in [1usize, 2, 4, 8] {
                    let e: Vec<u8> = ext2::vc::entries(&b, bits);
                    let got: Vec<_> = ecaps::virtual_channel::PortArbitrationTable::new(&b, bits).take(2000).collect();
                    let exp: Vec<_> = e.iter().map(|v| judge::port_entry(*v)).collect();
                    o.eq(c(17), "port arbitration table", &got, &exp);
                    let got: Vec<_> =
                        ecaps::multifunction_virtual_channel::FunctionArbitrationTable::new(&b, bits).take(2000).collect();
                    let exp: Vec<_> = e.iter().map(|v| judge::function_entry(*v)).collect();
                    o.eq(c(17), "function arbitration table", &got, &exp);
                }
            });
        }
    });
}

pub fn rcld_serial(run: &mut Run) {
    use ecaps::root_complex_link_declaration as r;
    let (seed, n) = (run.seed, run.pick(40_000, 1_000_000));
    run.tasks(16, |i, out| {
        let mut g = Rng::new(seed, 820_000 + i as u64, 1);
        for _ in 0..n / 16 {
            let b = background(&mut g, 8);
            let (lo, hi) = (u32at(&b, 0), u32at(&b, 4));
            let mut other = b.clone();
            match g.below(4) {
                0 => (),
                1 => other.rotate_left(4),
                _ => other[g.below(8)] ^= 1 << g.below(8),
            }
            out.case("link", &b, &other, || "link address".into(), |o| {
                let (lo2, hi2) = (u32at(&other, 0), u32at(&other, 4));
                let (x, y) = (r::DeviceSerialNumber::try_from(&b[..]), r::DeviceSerialNumber::try_from(&other[..]));
                o.check(c(26), (x == y) == (b == other) && (x != y) == (b != other), || format!("serial numbers {x:?} and {y:?}"));
                o.check(c(26), x == x.clone(), || format!("clone of {x:?} differs"));
                let (x, y) = (ecaps::ExtendedCapabilityHeader::from(lo), ecaps::ExtendedCapabilityHeader::from(lo2));
                o.check(c(26), (x == y) == (lo == lo2) && (x != y) == (lo != lo2), || format!("headers {x:?} and {y:?}"));
                for (t, u) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                    let (x, y) = (r::LinkAddress::new(t, lo, hi), r::LinkAddress::new(u, lo2, hi2));
                    // every bit of the two registers is somewhere in the address
                    let e = t == u && b == other;
                    o.check(c(26), (x == y) == e && (x != y) == !e, || format!("link addresses {x:?} and {y:?}"));
                }
                for ty in 0..2 {
                    o.eq(c(18), "link address", &r::LinkAddress::new(ty, lo, hi), &crate::encode::link_address(ty, lo, hi));
                }
                if let Ok(s) = r::DeviceSerialNumber::try_from(&b[..]) {
                    o.eq(c(18), "serial number", &(s.lower_dword, s.upper_dword), &(lo, hi));
                } else {
                    o.miss(c(18) | c(20), || "serial number refused".into());
                }
                for n in 0..8 {
                    let e = r::DeviceSerialNumber::try_from(&b[..n]);
                    o.check(c(18) | c(20), e.is_err(), || "short serial number accepted".into());
                    if let Err(e) = e {
                        let t = e.to_string();
                        o.check(c(24), t.to_lowercase().contains("serial number"), || format!("message {t:?} does not name the serial number"));
                    }
                }
            });
        }
    });
}

/// Which vendor specific structures are virtio depends on the exact vendor and device ids.
pub fn virtio_devices(run: &mut Run) {
    let seed = run.seed;
    run.tasks(256, |i, out| {
        let mut r = Rng::new(seed, 830_000 + i as u64, 1);
        for k in 0..256usize {
            let id = (i << 8 | k) as u16;
            for (vendor, device) in [(0x1af4u16, id), (id, 0x1000 + (r.below(0x80) as u16))] {
                let mut hb = header_bytes(&mut r, Hk::Normal, 0x40);
                hb[0..2].copy_from_slice(&vendor.to_le_bytes());
                hb[2..4].copy_from_slice(&device.to_le_bytes());
                let mut b = background(&mut r, 20);
                b[0] = r.pick(&[16, 16, 20, 20, 13, 22, 15]);
                b[1] = r.below(7) as u8;
                let d = conv_place(&mut r, 9, 0, 0x40, &b);
                conv_case(out, &d, &hb);
            }
        }
        out.add("device_ids", 512);
    });
}

/// Regions of any length and content, far from anything a device would contain.
pub fn garbage(run: &mut Run) {
    let (seed, n) = (run.seed, run.pick(200_000, 2_000_000));
    run.tasks(usize::div_ceil(n, 1000), |i, out| {
        let mut r = Rng::new(seed, 840_000 + i as u64, 1);
        for k in 0..1000 {
            let mut hb = [0; 64];
            r.fill(&mut hb);
            hb[0xe] = hb[0xe] & 0x80 | r.pick(&[0, 0, 1, 1, 2, 3]);
            let n = r.below(300);
            let d = background(&mut r, n);
            conv_case(out, &d, &hb);
            if k % 4 == 0 {
                let n = if r.one_in(50) { r.below(9000) } else { r.below(600) };
                let d = background(&mut r, n);
                ext_case(out, &d);
            }
            header_case(out, &hb);
        }
        out.add("garbage_regions", 1250);
    });
}

fn poke<T: Debug, E: Debug + std::fmt::Display>(o: &mut Out, r: Result<T, E>) {
    let mut s = Sink::new();
    match &r {
        Ok(v) => {
            let _ = write!(s, "{v:?}");
        }
        Err(e) => {
            let _ = write!(s, "{e:?} {e}");
        }
    }
    o.events += 1;
    o.add_fmt(s.n);
}

/// Every public decoder on slices of every length, not only those a list walk hands it.
pub fn direct(run: &mut Run) {
    let (seed, rounds) = (run.seed, run.pick(192, 4000));
    run.tasks(rounds, |i, out| {
        let mut r = Rng::new(seed, 850_000 + i as u64, 1);
        for n in 0..=112usize {
            let mut b = background(&mut r, n);
            if n > 12 {
                let id = r.pick(&EXT_IDS);
                if r.one_in(2) {
                    shape_ext(&mut r, id, &mut b);
                } else {
                    let id = r.pick(&CONV_IDS);
                    shape_conv(&mut r, id, &mut b, false);
                }
            }
            let hk = r.pick(&HKS);
            let hb = header_bytes(&mut r, hk, 0x40);
            let h = mh::header(&hb);
            let id = r.next() as u16;
            out.case("direct", &b, &hb, || format!("decoders called directly with {n} bytes"), |o| {
                macro_rules! go { ($($t:ty),* $(,)?) => { $( poke(o, <$t>::try_from(&b[..])); )* } }
                go!(
                    caps::AdvancedFeatures,
                    caps::SlotIdentification,
                    caps::VitalProductData,
                    caps::BridgeSubsystemVendorId,
                    caps::vendor_specific::Virtio,
                    caps::PowerManagementInterface,
                    caps::Sata,
                    caps::PciExpress,
                    caps::DebugPort,
                    caps::PciX,
                    caps::PciXBridge,
                    caps::FlatteningPortalBridge,
                    caps::MsiX,
                    caps::Hypertransport,
                    caps::MessageSignaledInterrups,
                    caps::AcceleratedGraphicsPort,
                    ecaps::L1PmSubstates,
                    ecaps::FrsQueuing,
                    ecaps::MultifunctionVirtualChannel,
                    ecaps::PciExpressOverMphy,
                    ecaps::AddressTranslationServices,
                    ecaps::ConfigurationAccessCorrelation,
                    ecaps::ResizableBar,
                    ecaps::DownstreamPortContainment,
                    ecaps::DesignatedVendorSpecificExtendedCapability,
                    ecaps::PageRequestInterface,
                    ecaps::PrecisionTimeMeasurement,
                    ecaps::VendorSpecificExtendedCapability,
                    ecaps::LatencyToleranceReporting,
                    ecaps::DynamicPowerAllocation,
                    ecaps::AccessControlServices,
                    ecaps::TphRequester,
                    ecaps::Multicast,
                    ecaps::DeviceSerialNumber,
                    ecaps::PowerBudgeting,
                    ecaps::LnRequester,
                    ecaps::VirtualChannel,
                    ecaps::SingleRootIoVirtualization,
                    ecaps::SecondaryPciExpress,
                    ecaps::AdvancedErrorReporting,
                    ecaps::ProtocolMultiplexing,
                    ecaps::AlternativeRoutingIdInterpretation,
                    ecaps::RootComplexInternalLinkControl,
                    ecaps::ProcessAddressSpaceId,
                    ecaps::root_complex_link_declaration::DeviceSerialNumber,
                    ecaps::RootComplexLinkDeclaration,
                    ecaps::ReadinessTimeReporting,
                    ecaps::RootComplexRegisterBlockHeader,
                    ecaps::RootComplexEventCollectorEndpointAssociation,
                );
                poke(o, Header::try_from(&b[..]));
                poke(o, caps::EnhancedAllocation::try_new(&b, &h));
                poke(o, caps::VendorSpecific::try_new(&b, &h));
                poke(
                    o,
                    ecaps::designated_vendor_specific_extended_capability::ComputeExpressLink::try_new(&b, id % 16),
                );
                o.note_distinct(dbg_hash(&b));
            });
            out.add("direct_decodes", 53);
        }
    });
}

/// Lists made directly over given bytes and counts.
pub fn constructed(run: &mut Run) {
    use ecaps::{access_control_services as acs, multifunction_virtual_channel as mf, protocol_multiplexing as pmux};
    use ecaps::{root_complex_link_declaration as rc, secondary_pci_express as sec, virtual_channel as vc};
    let (seed, n) = (run.seed, run.pick(40_000, 400_000));
    run.tasks(16, |i, out| {
        let mut r = Rng::new(seed, 860_000 + i as u64, 1);
        for _ in 0..n / 16 {
            let k = if r.one_in(4) { 4 * r.below(1100) } else { 4 * r.below(40) };
            let b = background(&mut r, k);
            let size = match r.below(4) {
                0 => r.below(300),
                1 => 8 * k + r.below(40),
                _ => r.below(8 * k + 1),
            };
            let count = if r.one_in(2) { r.below(10) as u8 } else { r.below(255) as u8 };
            let cut = k - r.below(4).min(k);
            out.case("constructed", &b, &[count], || format!("lists over {k} bytes, {size} bits, {count} elements"), |o| {
                let got: Vec<bool> = acs::EgressControlVectors::new(&b, size).take(40_000).collect();
                let exp: Vec<bool> = (0..size.min(8 * k)).map(|j| b[j / 8] >> (j % 8) & 1 == 1).collect();
                o.check(c(2) | c(16), got == exp, || format!("egress vector of {size} bits over {k} bytes has {} elements: {got:?}", got.len()));
                let d = &b[..cut];
                // bits beyond the last byte given read as zero up to the end of its double word
                let part: Vec<bool> = acs::EgressControlVectors::new(d, size).take(40_000).collect();
                let exp: Vec<bool> = (0..size.min(cut.div_ceil(4) * 32)).map(|j| d.get(j / 8).is_some_and(|x| x >> (j % 8) & 1 == 1)).collect();
                o.check(c(2) | c(16), part.len() <= exp.len() && part[..] == exp[..part.len()] && part.len() >= size.min(cut / 4 * 32), || {
                    format!("egress vector of {size} bits over {cut} bytes has {} elements: {part:?}", part.len())
                });
                o.eq(c(2) | c(18), "link entries", &rc::LinkEntries::new(d, count).take(4000).count(), &(count as usize).min(cut / 16));
                o.eq(c(2) | c(17), "VC resources", &vc::ExtendedVirtualChannels::new(d, count).take(4000).count(), &(count as usize + 1).min(cut / 12));
                o.eq(c(2) | c(15), "lanes", &sec::EqualizationControlLanes::new(d).take(4000).count(), &(cut / 2));
                o.eq(c(2) | c(15), "PMUX protocols", &pmux::PmuxProtocolArray::new(&b).take(4000).count(), &(k / 4));
                let m = caps::enhanced_allocation::EnhancedAllocationEntries::new(d, count).take(4000).count();
                o.check(c(2) | c(13), m <= (count as usize).min(cut / 4), || format!("{m} EA entries of {count} in {cut} bytes"));
                for bits in [1usize, 2, 4, 8] {
                    let e = 8 * cut / bits;
                    o.eq(c(2) | c(17), "port arbitration table", &vc::PortArbitrationTable::new(d, bits).take(40_000).count(), &e);
                    o.eq(c(2) | c(17), "function arbitration table", &mf::FunctionArbitrationTable::new(d, bits).take(40_000).count(), &e);
                }
                o.eq(c(2) | c(17), "VC arbitration table", &vc::VcArbitrationTable::new(d).take(40_000).count(), &(2 * cut));
                o.count("constructed_lists");
            });
        }
    });
}

/// The header register of extended structures on its own.
pub fn ext_headers(run: &mut Run) {
    let seed = run.seed;
    run.tasks(64, |i, out| {
        let mut r = Rng::new(seed, 870_000 + i as u64, 1);
        for k in 0..8000u32 {
            let v = if i < 32 { (i as u32 * 8000 + k).wrapping_mul(0x9e37_79b1) } else { 1u32.rotate_left(k) ^ (r.next() as u32 & r.next() as u32) };
            out.case("register", &v.to_le_bytes(), &[], || format!("extended capability header {v:08x}"), |o| {
                let h = ecaps::ExtendedCapabilityHeader::from(v);
                o.eq(c(4), "extended capability id", &h.extended_capability_id, &(v as u16));
                o.eq(c(4), "capability version", &h.capability_version, &((v >> 16 & 15) as u8));
                o.eq(c(4), "next capability offset", &h.next_capability_offset, &((v >> 20) as u16));
                o.count("ext_header_registers");
            });
        }
    });
}

/// Names of class codes: all 2^24 (or every `step`-th).
pub fn meanings(run: &mut Run, step: usize) {
    let t = crate::classes::table();
    let t = &t;
    run.tasks(256, |base, out| {
        let base = base as u8;
        let mut k = 0usize;
        while k < 65536 {
            let (sub, interface) = ((k >> 8) as u8, k as u8);
            // one bookkeeping case per sub-class, or per code when sampling
            if k % 256 == 0 || step > 1 {
                let span = if step > 1 { 1 } else { 256 };
                out.case("class", &[base, sub, interface], &[], || "class code".into(), |o| {
                    for i in 0..span {
                        let cc = ClassCode { base, sub, interface: interface.wrapping_add(i as u8) };
                        let (got, exp) = (cc.meaning(), t.meaning(base, sub, cc.interface));
                        o.events += 1;
                        if got != exp {
                            o.miss(c(8), || format!("{base:02x}/{sub:02x}/{:02x}: observed {got:?}, reference says {exp:?}", cc.interface));
                        }
                        if exp.2.is_some() || (i == 0 && exp.1.is_some()) {
                            o.note_distinct((base as u64) << 16 | (sub as u64) << 8 | cc.interface as u64 | 1 << 40);
                            o.count("named_class_codes");
                        }
                    }
                    o.add("class_codes", span as u64);
                });
            }
            k += step;
        }
        out.sample(|| format!("base class {base:02x}h: {:?}", t.base[base as usize]));
    });
    if run.prop == 8 && step == 1 {
        run.rule = "class codes (base, sub, interface) that carry a name of their own; all 2^24 codes are compared".into();
    }
}

/// The three class bytes reach the value the names are looked up by.
pub fn class_fields(run: &mut Run) {
    let seed = run.seed;
    let t = crate::classes::table();
    let t = &t;
    run.tasks(256, |i, out| {
        let mut r = Rng::new(seed, 860_000 + i as u64, 1);
        for _ in 0..200 {
            let mut hb = [0; 64];
            r.fill(&mut hb);
            hb[0xe] = r.pick(&[0, 1, 2, 0x80, 0x81, 5]);
            hb[0xb] = i as u8;
            if i > 0x13 && r.one_in(2) {
                hb[0xb] = r.below(0x14) as u8;
            }
            hb[0xa] = r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x10, 0x11, 0x20, 0x80, 0x99, 0xff]);
            hb[0x9] = r.pick(&[0, 1, 2, 3, 5, 0xa, 0xf, 0x10, 0x20, 0x30, 0x40, 0x80, 0x85, 0x8a, 0x8f, 0xfe, 0xff]);
            out.case("header", &hb, &[], String::new, |o| {
                let h = Header::from(hb);
                o.eq(c(8), "class bytes", &(h.class_code.base, h.class_code.sub, h.class_code.interface), &(hb[0xb], hb[0xa], hb[0x9]));
                o.eq(c(8), "meaning of a decoded class code", &h.class_code.meaning(), &t.meaning(hb[0xb], hb[0xa], hb[0x9]));
                let cc = ClassCode::from([hb[9], hb[0xa], hb[0xb]]);
                o.eq(c(8), "class code from bytes", &cc, &h.class_code);
            });
        }
    });
}

/// Walk with a cap and a record of places, independently of the reference walk.
pub fn revisit(run: &mut Run) {
    let (seed, n) = (run.seed, run.pick(250_000, 1_500_000));
    run.tasks(usize::div_ceil(n, 500), |i, out| {
        let mut r = Rng::new(seed, 870_000 + i as u64, 1);
        for k in 0..500 {
            let hk = r.pick(&HKS);
            let (start, data) = conv_space(&mut r, hk == Hk::Bridge);
            let hb = header_bytes(&mut r, hk, start);
            let h = mh::header(&hb);
            out.case("conv", &data, &hb, String::new, |o| {
                let mut seen = [false; 256];
                let mut items = 0;
                let mut it = Capabilities::new(&data, &h);
                for x in it.by_ref() {
                    items += 1;
                    if items > 64 {
                        o.miss(c(2), || "more than 64 items from a 256-byte space".into());
                        break;
                    }
                    if let Ok(x) = x {
                        o.check(c(2), !seen[x.pointer as usize], || format!("{:02x}h is reported twice", x.pointer));
                        seen[x.pointer as usize] = true;
                        o.check(c(2), x.pointer % 4 == 0 && x.pointer >= 0x40, || format!("reported at {:02x}h", x.pointer));
                    }
                }
                for _ in 0..4 {
                    o.check(c(2), it.next().is_none(), || "items after the end".into());
                }
                o.add("revisit_items", items as u64);
            });
            if k % 5 == 0 {
                let data = ext_space(&mut r);
                out.case("ext", &data, &[], String::new, |o| {
                    let mut seen = vec![false; 4096];
                    let mut items = 0;
                    let mut it = ExtendedCapabilities::new(&data);
                    for x in it.by_ref() {
                        items += 1;
                        if items > 1024 {
                            o.miss(c(2), || "more than 1024 items from a 4096-byte space".into());
                            break;
                        }
                        if let Ok(x) = x {
                            let p = x.offset as usize & 0xfff;
                            o.check(c(2), !seen[p], || format!("{:03x}h is reported twice", x.offset));
                            seen[p] = true;
                            o.check(c(2), x.offset % 4 == 0 && x.offset >= 0x100, || format!("reported at {:03x}h", x.offset));
                        }
                    }
                    for _ in 0..4 {
                        o.check(c(2), it.next().is_none(), || "items after the end".into());
                    }
                    o.add("revisit_items", items as u64);
                });
            }
            out.count("revisit_walks");
        }
    });
}

pub fn bar_bound(run: &mut Run) {
    let (seed, n) = (run.seed, run.pick(400_000, 2_000_000));
    run.tasks(16, |i, out| {
        let mut r = Rng::new(seed, 880_000 + i as u64, 1);
        for _ in 0..n / 16 {
            let regs = [(); 6].map(|_| bar_value(&mut r));
            let raw: Vec<u8> = regs.iter().flat_map(|v| v.to_le_bytes()).collect();
            out.case("bars", &raw, &[], || "base address iteration".into(), |o| {
                let mut it = BaseAddresses::new(regs);
                let mut last = None;
                let mut k = 0;
                for b in it.by_ref() {
                    k += 1;
                    o.check(c(2), k <= 6 && last < Some(b.region) && b.region < 6, || {
                        format!("item {k} is for register {} after {last:?}", b.region)
                    });
                    last = Some(b.region);
                    if k > 6 {
                        break;
                    }
                }
                o.check(c(2), it.next().is_none() && it.next().is_none(), || "items after the end".into());
            });
        }
    });
}

/// From header bytes to the list: the pointer of each layout leads where it says.
pub fn start_pointers(run: &mut Run) {
    let seed = run.seed;
    let rounds = run.pick(16, 80);
    run.tasks(256 * rounds, |i, out| {
        let mut r = Rng::new(seed, 890_000 + i as u64, 1);
        for hk in HKS {
            let (_, mut data) = conv_space(&mut r, hk == Hk::Bridge);
            if r.one_in(2) {
                data.resize(192, 0);
            }
            let hb = header_bytes(&mut r, hk, i as u8);
            out.case("conv", &data, &hb, || "header decoded by the library".into(), |o| {
                let m = mh::header(&hb);
                let h = Header::from(hb);
                o.eq(c(3), "capabilities pointer", &h.capabilities_pointer, &m.capabilities_pointer);
                // the pointer field is public: a caller may give any value
                let mut h = h;
                let mut m = m;
                let by_hand: u8 = hb[0x3f] ^ i as u8;
                if hb[0x3e] & 1 == 1 {
                    h.capabilities_pointer = by_hand;
                    m.capabilities_pointer = by_hand;
                }
                let exp: Vec<u16> = judge::ref_conv(&data, m.capabilities_pointer)
                    .iter()
                    .filter_map(|s| match s {
                        judge::Step::At(p, _) => Some(*p),
                        _ => None,
                    })
                    .collect();
                let mut failed = 0;
                let got: Vec<u16> = Capabilities::new(&data, &h)
                    .take(200)
                    .filter_map(|x| match x {
                        Ok(x) => Some(x.pointer as u16),
                        Err(_) => {
                            failed += 1;
                            None
                        }
                    })
                    .collect();
                // decoded ones appear in list order
                let mut e = exp.iter();
                o.check(c(3), got.iter().all(|g| e.any(|x| x == g)), || format!("places {got:?} of list {exp:?}"));
                o.check(c(3), got.len() + failed >= exp.len(), || format!("{} of {} structures reported", got.len() + failed, exp.len()));
            });
        }
    });
}

/// Headers from slices of every length.
pub fn header_lengths(run: &mut Run) {
    let (seed, rounds) = (run.seed, run.pick(64, 2000));
    run.tasks(rounds, |i, out| {
        let mut r = Rng::new(seed, 900_000 + i as u64, 1);
        for n in 0..=160usize {
            let mut b = background(&mut r, n);
            if n > 0xe {
                b[0xe] = b[0xe] & 0x80 | r.pick(&[0, 1, 2, 3]);
            }
            out.case("header-slice", &b, &[], || format!("header from {n} bytes"), |o| {
                let t = c(5) | c(20);
                match Header::try_from(&b[..]) {
                    Ok(h) => {
                        o.check(t, n >= 64, || format!("a header was decoded from {n} bytes"));
                        if n >= 64 {
                            let mut a = [0; 64];
                            a.copy_from_slice(&b[..64]);
                            o.eq(t, "header from a longer slice", &h, &mh::header(&a));
                            o.eq(t, "header from an array", &Header::from(a), &h);
                        }
                    }
                    Err(_) => o.check(t, n < 64, || format!("{n} bytes refused")),
                }
            });
            out.count("header_lengths");
        }
    });
}

pub fn cardbus(run: &mut Run) {
    let (seed, rounds) = (run.seed, run.pick(400, 20_000));
    run.tasks(rounds, |i, out| {
        let mut r = Rng::new(seed, 910_000 + i as u64, 1);
        for n in 0..=130usize {
            let hb = header_bytes(&mut r, Hk::Cardbus, 0);
            let rest = background(&mut r, n);
            out.case("cardbus", &hb, &rest, || format!("optional CardBus registers from {n} bytes"), |o| {
                judge::cardbus_optional(o, &hb, &rest)
            });
        }
        out.add("cardbus_optional", 131);
    });
}

/// Every combination of register types across the six registers.
pub fn bar_grid(run: &mut Run) {
    let seed = run.seed;
    // 8 kinds ^ 6 registers
    const KIND: [u32; 8] = [0, 1, 0x0, 0x8, 0x2, 0x4, 0xc, 0x6];
    run.tasks(512, |i, out| {
        let mut r = Rng::new(seed, 920_000 + i as u64, 1);
        for k in 0..512usize {
            let sel = i << 9 | k;
            let mut hb = [0u8; 64];
            r.fill(&mut hb);
            hb[0xe] = hb[0xe] & 0x80 | if k % 8 == 7 { r.pick(&[1, 2]) } else { 0 };
            for j in 0..6 {
                let kind = sel >> (3 * j) & 7;
                let addr = match r.below(3) {
                    0 => 0xffff_fff0,
                    1 => 1u32 << (4 + r.below(28)),
                    _ => (r.next() >> 20) as u32 & !0xf,
                };
                let v = if kind == 0 { 0 } else { addr | KIND[kind] };
                hb[0x10 + 4 * j..0x14 + 4 * j].copy_from_slice(&v.to_le_bytes());
            }
            header_case(out, &hb);
        }
        out.add("bar_type_combinations", 512);
    });
}

/// Window registers of bridges: base and limit together.
pub fn window_grid(run: &mut Run) {
    let seed = run.seed;
    let rounds = run.pick(1, 8);
    run.tasks(256 * rounds, |i, out| {
        let mut r = Rng::new(seed, 930_000 + i as u64, 1);
        for k in 0..=255u8 {
            let mut hb = [0u8; 64];
            if !r.one_in(3) {
                r.fill(&mut hb);
            }
            hb[0xe] = 1;
            hb[0x1c] = i as u8;
            hb[0x1d] = k;
            // prefetchable: the type nibbles take all pairs, addresses are patterns
            let p = |r: &mut Rng, n: u8| (r.pick(&[0u16, 0xfff0, 0x10, 0x8000, (r.clone().next() >> 9) as u16]) & 0xfff0) | n as u16;
            let (b, l) = (p(&mut r, i as u8 & 0xf), p(&mut r, k & 0xf));
            hb[0x24..0x26].copy_from_slice(&b.to_le_bytes());
            hb[0x26..0x28].copy_from_slice(&l.to_le_bytes());
            if r.one_in(4) {
                hb[0x28..0x34].fill(0);
            } else if r.one_in(4) {
                hb[0x28..0x34].fill(0xff);
            }
            header_case(out, &hb);
            // CardBus windows
            hb[0xe] = 2;
            hb[0x2c] = i as u8;
            hb[0x30] = k;
            hb[0x34] = k;
            hb[0x38] = i as u8;
            header_case(out, &hb);
            // the constructors themselves
            let (bu, lu) = ((r.next() >> 8) as u32, (r.next() >> 8) as u32);
            out.case("window", &[i as u8, k], &[], || "window constructors".into(), |o| {
                o.eq(c(7), "I/O window", &BridgeIoAddressRange::new(i as u8, k, bu as u16, lu as u16), &mh::io_range(i as u8, k, bu as u16, lu as u16));
                o.eq(c(7), "prefetchable window", &BridgePrefetchableMemory::new(b, l, bu, lu), &mh::pref_range(b, l, bu, lu));
            });
        }
        out.add("window_pairs", 256);
    });
}

fn unplaced(s: &str) -> String {
    // errors carry their own place; everything else must agree
    let mut out = String::new();
    let mut rest = s;
    loop {
        let next = ["ptr: ", "offset: "].iter().filter_map(|k| rest.find(k).map(|i| (i, k.len()))).min();
        let Some((i, n)) = next else { break };
        out.push_str(&rest[..i + n]);
        rest = rest[i + n..].trim_start_matches(|c: char| c.is_ascii_digit());
    }
    out + rest
}
/// What the list reports for the structure at `p`.
fn conv_at(data: &[u8], h: &Header, p: u8) -> Option<String> {
    let i = judge::ref_conv(data, h.capabilities_pointer).iter().position(|s| matches!(s, judge::Step::At(q, _) if *q == p as u16))?;
    match Capabilities::new(data, h).nth(i)? {
        Ok(x) if x.pointer == p => Some(format!("{:?}", x.kind)),
        Ok(x) => Some(format!("structure at {:02x}h", x.pointer)),
        Err(e) => Some(unplaced(&format!("{e:?}"))),
    }
}
fn ext_at(data: &[u8], p: u16) -> Option<String> {
    let i = judge::ref_ext(data).iter().position(|s| matches!(s, judge::Step::At(q, _) if *q == p))?;
    match ExtendedCapabilities::new(data).nth(i)? {
        Ok(x) if x.offset == p => Some(format!("{:?}", x.kind)),
        Ok(x) => Some(format!("structure at {:03x}h", x.offset)),
        Err(e) => Some(unplaced(&format!("{e:?}"))),
    }
}
fn fixed_conv(id: u8) -> Option<usize> {
    Some(match id {
        0x01 | 0x03 | 0x0d | 0x12 => 6,
        0x04 | 0x0a => 2,
        0x11 => 10,
        0x13 => 4,
        0x15 => 34,
        _ => return None,
    })
}
/// Whether so few bytes cannot hold the structure, whatever they are.
pub fn short_conv(id: u8, body: usize) -> bool {
    CONV_IDS.contains(&id) && body < fixed_conv(id).unwrap_or(1)
}
pub fn short_ext(id: u16, room: usize) -> bool {
    EXT_IDS.contains(&id) && room < fixed_ext(id).unwrap_or(8)
}
fn fixed_ext(id: u16) -> Option<usize> {
    Some(match id {
        0x03 | 0x06 | 0x07 | 0x1f | 0x22 => 0xc,
        0x04 | 0x13 | 0x1e => 0x10,
        0x0c | 0x0e | 0x0f | 0x18 | 0x1b | 0x1c => 8,
        0x0a | 0x21 => 0x14,
        0x10 => 0x40,
        0x20 => 0x2c,
        _ => return None,
    })
}

/// How far the registers and tables of an extended structure reach, as its own registers say (at most).
fn ext_end(id: u16, d: &[u8]) -> Option<usize> {
    if d.len() < 0x80 {
        return None;
    }
    Some(match id {
        0x01 => 0x48,
        0x02 | 0x08 | 0x09 => {
            let c1 = r32(d, 4);
            let n = c1.f(2, 0) as usize + 1;
            let bits = 1usize << c1.f(11, 10);
            let table = |off: usize, len: usize| if off == 0 { 0 } else { off * 16 + len };
            let mut end = 0x10 + 12 * n;
            let t = table(r32(d, 8).f(31, 24) as usize, ext2::vc::vc_phases(r16(d, 0xc).f(3, 1)) / 2);
            end = end.max(t);
            for i in 0..n {
                let (cap, ctl) = (r32(d, 0x10 + 12 * i), r32(d, 0x14 + 12 * i));
                let t = table(cap.f(31, 24) as usize, ext2::vc::port_phases(ctl.f(19, 17)) * bits / 8);
                end = end.max(t);
            }
            end
        }
        0x05 => 0x10 + 16 * r32(d, 4).f(15, 8) as usize,
        0x0b => (r32(d, 4).f(31, 20) as usize).max(8),
        // vector size 0 stands for 256
        0x0d => 8 + 32,
        0x12 => 0x30,
        0x15 | 0x24 => 4 + 8 * 7,
        0x16 => 0x10 + 32,
        // a table that cannot be is given with everything behind it
        0x17 => {
            let r = r32(d, 4);
            if r.f(10, 9) == 1 && r.f(26, 16) > 63 {
                return None;
            }
            0xc + 2 * 64
        }
        0x19 => 0xc + 64,
        0x1a => 0x10 + 4 * 63,
        0x1d => 0x50,
        0x23 => (r32(d, 4).f(31, 20) as usize).max(0x40),
        _ => fixed_ext(id)?,
    })
}
/// The same for conventional structures (from behind their id and next pointer).
fn conv_end(id: u8, d: &[u8]) -> Option<usize> {
    Some(match id {
        0x02 => 0x32,
        0x05 => 0x16,
        0x07 => 0x22,
        0x08 => 0x1e,
        0x09 => (*d.first()? as usize).saturating_sub(2).max(0x1a),
        0x10 => 0x3a,
        // counted entries, each of which says how long it is
        0x14 => return None,
        _ => fixed_conv(id)?,
    })
}

/// Where the bytes start whose presence makes no difference to what is seen, if there are any.
fn free_tail(d: &[u8], from: usize, view: &dyn Fn(&[u8]) -> Option<u64>) -> Option<usize> {
    let full = view(d)?;
    let mut n = d.len();
    while n > from && d.len() - n < 48 && view(&d[..n - 1]) == Some(full) {
        n -= 1;
    }
    (n < d.len()).then_some(n)
}

/// The same structure bytes decode the same wherever they stand and whatever surrounds them.
pub fn locality(run: &mut Run) {
    let seed = run.seed;
    let rounds = run.pick(24_000, 150_000);
    let t = c(21);
    let n = (CONV_IDS.len() + EXT_IDS.len()) * rounds;
    run.tasks(n, |i, out| {
        let mut r = Rng::new(seed, 940_000 + i as u64, 1);
        let which = i % (CONV_IDS.len() + EXT_IDS.len());
        if which < CONV_IDS.len() {
            let id = CONV_IDS[which];
            let hk = hk_for(&mut r, id);
            let n = conv_body_len(&mut r, id).min(180);
            let body = conv_body(&mut r, id, n, hk == Hk::Bridge);
            let mut hb = header_bytes(&mut r, hk, 0x40);
            let at = if hk == Hk::Cardbus { 0x14 } else { 0x34 };
            let d0 = conv_place(&mut r, id, 0, 0x40, &body);
            let base = guarded(|| conv_at(&d0, &mh::header(&hb), 0x40));
            for s in 0..12 {
                let s = if i % 5 == 0 { 4 * s as u8 + r.below(4) as u8 } else { r.below(48) as u8 };
                let p = 0x40 + 4 * s;
                // where the list goes next does not matter either
                let next = if r.one_in(2) { 0 } else { r.byte() };
                let d = conv_place(&mut r, id, next, p, &body);
                // directly, or through a structure in front of it
                let mut d = d;
                let start = if s >= 1 && r.one_in(2) {
                    let q = r.below(s as usize);
                    d[4 * q] = if r.one_in(2) { r.byte() } else { r.pick(&CONV_IDS) };
                    d[4 * q + 1] = p | r.below(4) as u8;
                    0x40 + 4 * q as u8
                } else {
                    p
                };
                hb[at] = start;
                out.case("moved", &d, &hb, || format!("structure {id:02x}h at {p:02x}h"), |o| {
                    let got = conv_at(&d, &mh::header(&hb), p);
                    if let Ok(base) = &base {
                        o.check(t, got == *base, || format!("id {id:02x}h decodes at 40h as {base:?} and at {p:02x}h as {got:?}"));
                    }
                    o.structure(id as u32, &body, got.is_some());
                });
                out.count("moved_structures");
            }
            if let Some(len) = fixed_conv(id).filter(|l| *l <= n) {
                for _ in 0..6 {
                    let mut b2 = body.clone();
                    b2.truncate(len);
                    let k = r.below(60);
                    b2.extend(background(&mut r, k));
                    let d = conv_place(&mut r, id, 0, 0x40, &b2);
                    hb[at] = 0x40;
                    out.case("moved", &d, &hb, || format!("structure {id:02x}h with other bytes behind it"), |o| {
                        let got = conv_at(&d, &mh::header(&hb), 0x40);
                        if let Ok(base) = &base {
                            o.check(t, got == *base, || format!("id {id:02x}h decodes as {base:?}, with other bytes behind it as {got:?}"));
                        }
                    });
                    out.count("changed_surroundings");
                }
            }
            // bytes behind the part that is needed
            hb[at] = 0x40;
            let view = |d: &[u8]| {
                guarded(|| match Capabilities::new(d, &mh::header(&hb)).next() {
                    Some(Ok(x)) => Some(crate::equality::conv_kind_view(&x.kind)),
                    _ => None,
                })
                .unwrap_or(None)
            };
            // (not for a cut off Enhanced Allocation entry, which says itself how long it is, and not
            // for the upper half of an AGP pointer, which is zero when absent)
            if let Some(tail) = free_tail(&d0, 2, &view).filter(|_| !matches!(id, 0x02 | 0x14)) {
                for _ in 0..3 {
                    let mut d = d0.clone();
                    let b = background(&mut r, d.len() - tail);
                    d[tail..].copy_from_slice(&b);
                    out.case("moved", &d, &hb, || format!("structure {id:02x}h with other bytes behind it"), |o| {
                        o.check(t, view(&d) == view(&d0), || format!("id {id:02x}h ends before byte {tail} but depends on what follows: {:?}, before {:?}", conv_at(&d, &mh::header(&hb), 0x40), base));
                    });
                    out.count("changed_tails");
                }
            }
            if let Some(end) = conv_end(id, &body).filter(|e| *e <= 180) {
                let mut whole = body.clone();
                if whole.len() < end {
                    let b = background(&mut r, end - whole.len());
                    whole.extend(b);
                }
                whole.truncate(end);
                let d = conv_place(&mut r, id, 0, 0x40, &whole);
                let alone = view(&d);
                for _ in 0..4 {
                    let k = if r.one_in(2) { 1 + r.below(8) } else { 1 + r.below(200 - end) };
                    let mut d2 = d.clone();
                    let b = background(&mut r, k);
                    d2.extend(b);
                    out.case("moved", &d2, &hb, || format!("structure {id:02x}h with {k} bytes behind it"), |o| {
                        o.check(t, view(&d2) == alone, || format!("id {id:02x}h decodes differently with {k} bytes behind its end: {:?}", conv_at(&d2, &mh::header(&hb), 0x40)));
                    });
                    out.count("added_tails");
                }
            }
            // of the header, only layout and (for vendor specific structures) identification matter
            for _ in 0..6 {
                // layout: any, but for structures that depend on it being a bridge's
                let k2 = match (id, hk) {
                    (0x07 | 0x14, Hk::Bridge) => Hk::Bridge,
                    (0x07 | 0x14, _) => r.pick(&[Hk::Normal, Hk::Cardbus]),
                    _ => r.pick(&[Hk::Normal, Hk::Bridge, Hk::Cardbus]),
                };
                let mut h2 = header_bytes(&mut r, k2, 0x40);
                if id == 9 {
                    h2[0..4].copy_from_slice(&hb[0..4]);
                }
                out.case("moved", &d0, &h2, || format!("structure {id:02x}h under another header"), |o| {
                    let got = conv_at(&d0, &mh::header(&h2), 0x40);
                    if let Ok(base) = &base {
                        o.check(t, got == *base, || format!("id {id:02x}h decodes as {base:?}, under another header as {got:?}"));
                    }
                });
                out.count("changed_headers");
            }
        } else {
            let id = EXT_IDS[which - CONV_IDS.len()];
            let n = ext_body_len(&mut r, id).max(8);
            let body = ext_body(&mut r, id, n);
            let v = 1 + r.below(15) as u8;
            let d0 = ext_place(&mut r, id, v, 0, 0x100, &body);
            let base = guarded(|| ext_at(&d0, 0x100));
            for s in 0..8usize {
                let p = match s {
                    0 => 0x104,
                    1 => (0x1000 - n.max(4)) as u16 & !3,
                    _ => 0x104 + 4 * r.below(((0x1000 - 0x104 - n) / 4).max(1)) as u16,
                };
                // a raw header is part of the bytes: keep version and next as they were
                let d = ext_place(&mut r, id, v, 0, p, &body);
                out.case("moved", &d, &[], || format!("structure {id:04x}h at {p:03x}h"), |o| {
                    let got = ext_at(&d, p);
                    if let Ok(base) = &base {
                        o.check(t, got == *base, || format!("id {id:04x}h decodes at 100h as {base:?} and at {p:03x}h as {got:?}"));
                    }
                    o.structure(0x100 + id as u32, &body, got.is_some());
                });
                out.count("moved_structures");
            }
            let view = |d: &[u8]| {
                guarded(|| match ExtendedCapabilities::new(d).next() {
                    Some(Ok(x)) => Some(crate::equality::ext_kind_view(&x.kind)),
                    _ => None,
                })
                .unwrap_or(None)
            };
            if let Some(tail) = free_tail(&d0, 4, &view) {
                for _ in 0..3 {
                    let mut d = d0.clone();
                    let b = background(&mut r, d.len() - tail);
                    d[tail..].copy_from_slice(&b);
                    out.case("moved", &d, &[], || format!("structure {id:04x}h with other bytes behind it"), |o| {
                        o.check(t, view(&d) == view(&d0), || format!("id {id:04x}h ends before byte {tail} but depends on what follows: {:?}, before {:?}", ext_at(&d, 0x100), base));
                    });
                    out.count("changed_tails");
                }
            }
            // where the list goes next does not matter either
            if let Some(alone) = view(&d0) {
                for _ in 0..4 {
                    let mut d = d0.clone();
                    let next = if r.one_in(3) { r.below(4096) } else { 0x100 + 4 * r.below(d.len() / 4 + 8) } as u16;
                    ext_head(&mut d, 0, id, v, next);
                    out.case("moved", &d, &[], || format!("structure {id:04x}h linked to {next:03x}h"), |o| {
                        o.check(t, view(&d) == Some(alone), || format!("id {id:04x}h decodes differently when linked to {next:03x}h: {:?}, before {base:?}", ext_at(&d, 0x100)));
                    });
                    out.count("changed_links");
                }
            }
            let mut whole = body.clone();
            if whole.len() < 0x80 {
                let b = background(&mut r, 0x80 - whole.len());
                whole.extend(b);
            }
            if let Some(end) = ext_end(id, &whole).filter(|e| *e < 0xf00) {
                if whole.len() < end {
                    let b = background(&mut r, end - whole.len());
                    whole.extend(b);
                }
                whole.truncate(end);
                let d = ext_place(&mut r, id, v, 0, 0x100, &whole);
                let alone = view(&d);
                for j in 0..4 {
                    let k = match j {
                        0 => 1 + r.below(8),
                        1 => 0xf00 - end,
                        _ => 1 + r.below(0xf00 - end),
                    };
                    let mut d2 = d.clone();
                    let b = background(&mut r, k);
                    d2.extend(b);
                    out.case("moved", &d2, &[], || format!("structure {id:04x}h with {k} bytes behind it"), |o| {
                        o.check(t, view(&d2) == alone, || format!("id {id:04x}h decodes differently with {k} bytes behind its end: {:?}", ext_at(&d2, 0x100)));
                    });
                    out.count("added_tails");
                }
            }
            if let Some(len) = fixed_ext(id).filter(|l| *l <= n) {
                for _ in 0..6 {
                    let mut b2 = body.clone();
                    b2.truncate(len);
                    let k = r.below(200);
                    b2.extend(background(&mut r, k));
                    let d = ext_place(&mut r, id, v, 0, 0x100, &b2);
                    out.case("moved", &d, &[], || format!("structure {id:04x}h with other bytes behind it"), |o| {
                        let got = ext_at(&d, 0x100);
                        if let Ok(base) = &base {
                            o.check(t, got == *base, || format!("id {id:04x}h decodes as {base:?}, with other bytes behind it as {got:?}"));
                        }
                    });
                    out.count("changed_surroundings");
                }
            }
        }
    });
}

/// Lists in which a structure that cannot be decoded comes before others that can.
pub fn failing_chains(run: &mut Run) {
    let (seed, n) = (run.seed, run.pick(800_000, 5_000_000));
    run.tasks(usize::div_ceil(n, 1000), |i, out| {
        let mut r = Rng::new(seed, 950_000 + i as u64, 1);
        for k in 0..1000 {
            // conventional: structures cut off by the end of the region come first
            let len = r.pick(&[192, 192, 100, 64, 37, 150]);
            let mut d = background(&mut r, len);
            let slots = len / 4;
            let count = 2 + r.below(6);
            let mut pos: Vec<usize> = (0..count).map(|_| r.below(slots)).collect();
            pos.push(slots - 1 - r.below(3.min(slots)));
            pos.sort_unstable();
            pos.dedup();
            pos.reverse();
            let hk = r.pick(&[Hk::Normal, Hk::Bridge, Hk::Virtio]);
            for (j, &s) in pos.iter().enumerate() {
                let id = r.pick(&CONV_IDS);
                let o = 4 * s;
                if o + 2 > len {
                    continue;
                }
                d[o] = id;
                d[o + 1] = pos.get(j + 1).map_or(0, |q| 0x40 + 4 * *q as u8);
                if r.one_in(2) && o + 6 < len {
                    let room = (len - o - 2).min(conv_len(id));
                    shape_conv(&mut r, id, &mut d[o + 2..o + 2 + room], hk == Hk::Bridge);
                }
            }
            let hb = header_bytes(&mut r, hk, 0x40 + 4 * pos[0] as u8);
            let before = out.quick_counts.iter().map(|q| q[0]).sum::<u64>();
            conv_case(out, &d, &hb);
            if out.quick_counts.iter().map(|q| q[0]).sum::<u64>() > before {
                out.count("failures_before_others");
            }
            if k % 4 == 0 {
                let len = 0x40 + 4 * r.below(200) + r.below(4);
                let mut d = background(&mut r, len);
                let slots = len / 4;
                let mut pos: Vec<usize> = (0..2 + r.below(8)).map(|_| 1 + r.below(slots - 1)).collect();
                pos.push(slots - 1 - r.below(4));
                pos.sort_unstable();
                pos.dedup();
                pos.push(0);
                pos.reverse();
                for (j, &s) in pos.iter().enumerate() {
                    let id = r.pick(&EXT_IDS);
                    let o = 4 * s;
                    if r.one_in(2) {
                        let room = (len - o).min(ext_len(id) + 16);
                        shape_ext(&mut r, id, &mut d[o..o + room]);
                    }
                    // from 100h to the far end, then back towards the front
                    let next = pos.get(j + 1).map_or(0, |q| 0x100 + 4 * *q as u16);
                    ext_head(&mut d, o, id, 1, next);
                }
                let e0 = out.quick_counts.iter().map(|q| q[0]).sum::<u64>();
                ext_case(out, &d);
                if out.quick_counts.iter().map(|q| q[0]).sum::<u64>() > e0 {
                    out.count("ext_failures_before_others");
                }
                out.sample(|| format!("{:?}", judge::ref_ext(&d)));
            }
        }
    });
}

/// Different causes read differently, and the numbers a cause carries are in its text.
/// A word of the message which belongs to one cause of a family only. A message that lacks its own
/// word is wrong only if it has that of another cause instead: rewording stays possible.
fn keyword(family: &str, variant: &str) -> &'static str {
    match (family, variant) {
        ("PCI Express", "RequiredBytesSlice") => "mandatory",
        ("PCI Express", "RootBytesSlice") => "root",
        ("Enhanced Allocation", "NumEntries") => "number",
        ("Enhanced Allocation", "Type1SecondDw") => "second",
        ("AER", "Common") => "common",
        ("AER", "TlpPrefixLog") => "prefix",
        ("vendor specific", "LengthUnreadable") => "length byte",
        ("vendor specific", "Length") => "length should",
        ("vendor specific", "Data") => "data",
        ("vendor specific", "Virtio") => "virtio",
        ("PCI-X", "CommandAndStatus") => "command",
        ("PCI-X bridge", "Mandatory") => "split",
        ("PCI-X", "EccMode2Only") | ("PCI-X bridge", "BridgeEccMode2Only") => "mode 2",
        ("PCI-X", "EccMode1OrMode2") | ("PCI-X bridge", "BridgeEccMode1OrMode2") => "mode 1",
        ("DPC", "Mandatory") => "8 bytes",
        ("DPC", "RpExtensions") => "extensions",
        ("DPC", "RpPioImpspecLog") => "impspec",
        ("DPC", "RpPioTlpPrefixLog") => "prefix",
        ("MFVC", "PortVcData") => "port vc",
        ("MFVC", "VcArbitrationTableOffset") => "offset",
        ("MFVC", "VcArbitrationTableData") => "data",
        ("MFVC", "VcArbitrationTableLength") => "short",
        ("MFVC", "FunctionArbitrationTable0") => "function",
        ("resizable BAR", "FirstEntry") => "at least one",
        ("resizable BAR", "NumberOfResizableBars") => "number",
        ("resizable BAR", "ShortData") => "short",
        ("link declaration", "ElementSelfDescription") => "description",
        ("link declaration", "NumberOfLinkEntries") => "number",
        ("link declaration", "ReservedSpace") => "reserved",
        ("link declaration", "LinkEntry1") => "at least one",
        ("DPA", "Mandatory") | ("PMUX", "Mandatory") => "control",
        ("DPA", "DpaAllocationArray") => "entries",
        ("PMUX", "PmuxProtocolArray") => "array",
        ("SR-IOV", "ElementSelfDescription") => "description",
        ("SR-IOV", "LinkEntries") => "entries",
        ("conventional list", "Pointer") => "pointer",
        ("conventional list", "Header") => "header",
        ("extended list", "Offset") => "offset",
        ("extended list", "Header") => "short",
        ("extended list", "EmptyHeader") => "empty",
        ("DVSEC", "Mandatory") => "mandatory",
        ("DVSEC", "VendorSpecificRegisters") => "registers",
        ("DVSEC", "ComputeExpressLink") => "express link",
        _ => "",
    }
}

/// Numbers of a message that are labelled in it: label, field of the error, base.
const LABELS: [(&str, &str, u32); 7] = [
    ("expected", "expected", 10),
    ("expected", "dvsec_length", 10),
    ("real", "real", 10),
    ("found", "found", 10),
    ("VID", "dvsec_vendor_id", 16),
    ("rev", "dvsec_revision", 16),
    (" ID", "dvsec_id", 16),
];

fn variant(e: &impl std::fmt::Debug) -> String {
    format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect()
}

/// The number following a label, with nothing but punctuation between.
fn number_after(text: &str, label: &str, base: u32) -> Option<u64> {
    let rest = &text[text.find(label)? + label.len()..];
    let rest = rest.trim_start_matches(|c: char| c == ':' || c == '=' || c == ' ');
    let n: String = rest.chars().take_while(|c| c.is_digit(base)).collect();
    u64::from_str_radix(&n, base).ok()
}

pub fn error_texts(run: &mut Run) {
    use caps::{enhanced_allocation as ea, hypertransport as ht, message_signaled_interrups as msi, pci_express as pe, pci_x as px, vendor_specific as vs};
    use ecaps::{
        advanced_error_reporting as aer, designated_vendor_specific_extended_capability as dv, downstream_port_containment as dpc,
        dynamic_power_allocation as dpa, multifunction_virtual_channel as mf, protocol_multiplexing as pmux, resizable_bar as rb,
        root_complex_link_declaration as rc, single_root_io_virtualization as sr,
    };
    fn family<E: std::fmt::Display + std::fmt::Debug + PartialEq>(out: &mut Out, name: &'static str, list: Vec<(E, Vec<String>)>) {
        out.case("texts", name.as_bytes(), &[], || "error texts".into(), |o| {
            let texts: Vec<String> = list.iter().map(|x| x.0.to_string()).collect();
            for (i, t) in texts.iter().enumerate() {
                o.check(c(24), !t.trim().is_empty(), || format!("{name}: {:?} has no text", list[i].0));
                for j in 0..i {
                    o.check(c(24), *t != texts[j], || format!("{name}: {:?} and {:?} both read {t:?}", list[i].0, list[j].0));
                }
                for (j, x) in list.iter().enumerate() {
                    o.check(c(26), (list[i].0 == x.0) == (i == j), || format!("{name}: comparing {:?} with {:?}", list[i].0, x.0));
                }
                let own = keyword(name, &variant(&list[i].0));
                for (j, x) in list.iter().enumerate().filter(|x| x.0 != i) {
                    let other = keyword(name, &variant(&x.0));
                    if own.is_empty() || other.is_empty() || own == other {
                        continue;
                    }
                    let low = t.to_lowercase();
                    let wrong = !low.contains(own) && low.contains(other);
                    o.check(c(24), !wrong, || format!("{name}: {:?} reads {t:?}, which is about {:?}", list[i].0, list[j].0));
                }
                let shown = format!("{:?}", list[i].0);
                for (label, field, base) in LABELS {
                    if let (Some(v), Some(w)) = (number_after(&shown, field, 10), number_after(t, label, base)) {
                        o.check(c(24), v == w, || format!("{name}: {shown} reads {t:?}"));
                        o.count("error_numbers");
                    }
                }
                for n in &list[i].1 {
                    o.check(c(24), t.contains(n), || format!("{name}: {:?} reads {t:?}, without {n}", list[i].0));
                }
                o.count("error_texts");
            }
        });
    }
    macro_rules! plain { ($t:path, $($v:ident),*) => {{ use $t as E; vec![$((E::$v, vec![])),*] }} }
    run.tasks(1, |_, out| {
        family(out, "MSI", plain!(msi::MessageSignaledInterrupsError, MessageControl, Size32bit, Size64bit, Size32bitPerVector, Size64bitPerVector));
        family(out, "PCI Express", plain!(pe::PciExpressError, RequiredBytesSlice, RootBytesSlice));
        family(out, "Enhanced Allocation", plain!(ea::EnhancedAllocationError, NumEntries, Type1SecondDw));
        family(
            out,
            "HyperTransport",
            plain!(ht::HypertransportError, CapabilityType, SlaveOrPrimaryInterface, HostOrSecondaryInterface, RevisionId, MsiMapping),
        );
        for n in [0x40u8, 0x58, 0xa4, 0xfc] {
            use caps::CapabilityError as E;
            let l = [n, n ^ 4].map(|ptr| (E::Header { ptr }, vec![format!("{ptr:02x}")]));
            family(out, "conventional list", [(E::Pointer, vec![])].into_iter().chain(l).collect());
            use ecaps::ExtendedCapabilityError as X;
            let o = 0xc00 | n as u16;
            let hex = |o: u16| vec![format!("{o:03x}")];
            let l = vec![
                (X::Offset, vec![]),
                (X::Header { offset: o }, hex(o)),
                (X::Header { offset: o ^ 4 }, hex(o ^ 4)),
                (X::EmptyHeader { offset: o }, hex(o)),
                (X::EmptyHeader { offset: o ^ 4 }, hex(o ^ 4)),
            ];
            family(out, "extended list", l);
        }
        family(out, "AER", plain!(aer::AdvancedErrorReportingError, Common, TlpPrefixLog));
        family(out, "SR-IOV", plain!(sr::SingleRootIoVirtualizationError, ElementSelfDescription, LinkEntries));
        for n in [0usize, 1, 5, 37, 254, 1000] {
            let s = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
            {
                use vs::VendorSpecificError as E;
                family(
                    out,
                    "vendor specific",
                    vec![
                        (E::LengthUnreadable, vec![]),
                        (E::Length { val: n as u8 }, s(&[n as u8 as usize])),
                        (E::Length { val: n as u8 ^ 1 }, s(&[n as u8 as usize ^ 1])),
                        (E::Data { size: n }, s(&[n])),
                        (E::Data { size: n + 1 }, s(&[n + 1])),
                        (E::Virtio, vec![]),
                    ],
                );
            }
            {
                use dpc::DownstreamPortContainmentError as E;
                let mut l = plain!(dpc::DownstreamPortContainmentError, Mandatory, RpExtensions, RpPioImpspecLog);
                l.push((E::RpPioTlpPrefixLog { number: n }, s(&[n])));
                l.push((E::RpPioTlpPrefixLog { number: n + 1 }, s(&[n + 1])));
                family(out, "DPC", l);
            }
            {
                use dpa::DynamicPowerAllocationError as E;
                let v = E::DpaAllocationArray { expected: n + 3, found: n };
                let w = E::DpaAllocationArray { expected: n + 4, found: n };
                let x = E::DpaAllocationArray { expected: n + 3, found: n + 1 };
                family(out, "DPA", vec![(E::Mandatory, vec![]), (v, s(&[n + 3, n])), (w, s(&[n + 4, n])), (x, s(&[n + 3, n + 1]))]);
            }
            {
                use pmux::ProtocolMultiplexingError as E;
                let v = E::PmuxProtocolArray { expected: n + 3, found: n };
                let w = E::PmuxProtocolArray { expected: n + 4, found: n };
                let x = E::PmuxProtocolArray { expected: n + 3, found: n + 1 };
                family(out, "PMUX", vec![(E::Mandatory, vec![]), (v, s(&[n + 3, n])), (w, s(&[n + 4, n])), (x, s(&[n + 3, n + 1]))]);
            }
            {
                use mf::MultifunctionVirtualChannelError as E;
                let mut l = plain!(
                    mf::MultifunctionVirtualChannelError,
                    PortVcData,
                    VcArbitrationTableOffset,
                    VcArbitrationTableData,
                    FunctionArbitrationTable0
                );
                l.push((E::VcArbitrationTableLength { expected: n + 3, real: n }, s(&[n + 3, n])));
                l.push((E::VcArbitrationTableLength { expected: n + 4, real: n }, s(&[n + 4, n])));
                l.push((E::VcArbitrationTableLength { expected: n + 3, real: n + 1 }, s(&[n + 3, n + 1])));
                family(out, "MFVC", l);
            }
            {
                use rb::ResizableBarError as E;
                family(
                    out,
                    "resizable BAR",
                    vec![(E::FirstEntry, vec![]), (E::NumberOfResizableBars { value: n }, vec![]), (E::ShortData, vec![])],
                );
            }
            {
                use dv::DesignatedVendorSpecificExtendedCapabilityError as E;
                let (v, r, i) = (0xa000 | n as u16, 0xb0 | n as u8, 0xc000 | n as u16);
                let e = E::VendorSpecificRegisters { dvsec_vendor_id: v, dvsec_revision: r, dvsec_length: n as u16 + 3, dvsec_id: i, real: n };
                let f = |k: usize| E::VendorSpecificRegisters {
                    dvsec_vendor_id: v ^ (k == 1) as u16,
                    dvsec_revision: r ^ (k == 2) as u8,
                    dvsec_length: n as u16 + 3 + (k == 3) as u16,
                    dvsec_id: i ^ (k == 4) as u16,
                    real: n + (k == 5) as usize,
                };
                let mut words = s(&[n + 3, n]);
                words.extend([format!("{v:04x}"), format!("{r:02x}"), format!("{i:04x}")]);
                let x = E::ComputeExpressLink { source: dv::compute_express_link::ComputeExpressLinkError::PcieDvsecForCxlDevice };
                let inner = dv::compute_express_link::ComputeExpressLinkError::PcieDvsecForCxlDevice.to_string();
                let mut l = vec![(E::Mandatory, vec![]), (e, words), (x, vec![inner])];
                l.extend((1..6).map(|k| (f(k), vec![])));
                family(out, "DVSEC", l);
            }
            {
                use rc::RootComplexLinkDeclarationError as E;
                let d = || rc::ElementSelfDescription::from((n as u32) << 8);
                out.case("texts", b"link declaration", &[], || "error comparison".into(), |o| {
                    let x = || rc::ElementSelfDescription::from((n as u32) << 8 | 1 << 24);
                    let apart = E::NumberOfLinkEntries { element_self_description: d() } != E::NumberOfLinkEntries { element_self_description: x() }
                        && E::ReservedSpace { element_self_description: d() } != E::ReservedSpace { element_self_description: x() }
                        && E::LinkEntry1 { element_self_description: d() } != E::LinkEntry1 { element_self_description: x() };
                    o.check(c(26), apart, || format!("link declaration errors with {:?} and {:?} compare equal", d(), x()));
                    let (a, b) = (rb::ResizableBarError::NumberOfResizableBars { value: n }, rb::ResizableBarError::NumberOfResizableBars { value: n + 1 });
                    o.check(c(26), a != b, || format!("{a:?} equals {b:?}"));
                });
                family(
                    out,
                    "link declaration",
                    vec![
                        (E::ElementSelfDescription, vec![]),
                        (E::NumberOfLinkEntries { element_self_description: d() }, vec![]),
                        (E::ReservedSpace { element_self_description: d() }, vec![]),
                        (E::LinkEntry1 { element_self_description: d() }, vec![]),
                    ],
                );
            }
        }
        family(out, "PCI-X", plain!(px::PciXError, CommandAndStatus, EccMode2Only, EccMode1OrMode2));
        family(out, "PCI-X bridge", plain!(px::PciXBridgeError, Mandatory, BridgeEccMode2Only, BridgeEccMode1OrMode2));
    });
}

/// Fixed tables of derived values.
pub fn derived_tables(run: &mut Run) {
    use crate::judge::slot_power;
    use caps::pci_express::{CompletionTimeoutRanges as R, SlotPowerLimit};
    let t = c(25);
    run.tasks(1, |_, out| {
        out.case("tables", &[], &[], || "constants".into(), |o| {
            for (n, got, exp) in [
                ("A", R::A, 50e-6..10e-3),
                ("B", R::B, 10e-3..250e-3),
                ("C", R::C, 250e-3..4.0),
                ("D", R::D, 4.0..64.0),
            ] {
                o.eq(t, n, &got, &exp);
            }
            let names = ecaps::resizable_bar::ResizableBarEntry::BAR_SIZES;
            o.eq(t, "number of BAR sizes", &names.len(), &44);
            for (i, n) in names.iter().enumerate() {
                let p = 20 + i;
                let exp = format!("{} {}", 1u64 << (p % 10), ["", "KB", "MB", "GB", "TB", "PB", "EB"][p / 10]);
                o.eq(t, "BAR size name", &n.replace(' ', ""), &exp.replace(' ', ""));
            }
            for (n, got, exp) in sizes() {
                o.eq(t, n, &got, &exp);
            }
            o.count("derived_tables");
        });
        for v in 0..=255u8 {
            out.case("tables", &[v], &[], || "slot power limit".into(), |o| {
                for (s, k) in [1.0f64, 0.1, 0.01, 0.001].into_iter().enumerate() {
                    let x = SlotPowerLimit::new(v, s as u8);
                    // F3h and above: reserved for values above 300 W
                    let Some(e) = slot_power(v, k) else { continue };
                    for w in [f32::from(&x), f32::from(x)] {
                        o.check(t, (w as f64 - e).abs() <= e * 1e-5, || format!("slot power {v} scale {s}: {w}"));
                    }
                }
            });
        }
        use ecaps::multifunction_virtual_channel::FunctionArbitrationSelect as F;
        use ecaps::virtual_channel::{PortArbitrationSelect as P, VcArbitrationSelect as V};
        for v in 0..8u8 {
            out.case("tables", &[v], &[], || "arbitration table lengths".into(), |o| {
                let n = ext2::vc::port_phases(v as u64);
                o.eq(t, "port phases", &P::from(v).port_arbitration_table_length(), &n);
                o.eq(t, "function phases", &F::from(v).function_arbitration_table_length(), &n);
                o.eq(t, "VC phases", &V::from(v).vc_arbitration_table_length(), &ext2::vc::vc_phases(v as u64));
            });
        }
        // latencies for every register value
        for v in 0..=0xffffu16 {
            out.case("tables", &v.to_le_bytes(), &[], || "latency and readiness registers".into(), |o| {
                let l = ecaps::latency_tolerance_reporting::MaxLatency::from(v);
                let (val, s) = ((v & 0x3ff) as usize, (v >> 10) & 7);
                o.eq(t, "latency", &l.value(), &if s > 5 { 0 } else { val << (5 * s) });
                let x = ecaps::readiness_time_reporting::ReadinessTime::from(v & 0xfff);
                o.eq(t, "readiness time", &x.actual_time_value(), &((v as u64 & 0x1ff) << (5 * ((v >> 9) & 7))));
            });
        }
    });
}

/// Published sizes and offsets, as their register layouts give them.
fn sizes() -> Vec<(&'static str, usize, usize)> {
    use caps::{hypertransport as ht, message_signaled_interrups as msi};
    use ecaps::designated_vendor_specific_extended_capability as dv;
    use ecaps::{
        advanced_error_reporting as aer, frs_queuing as frs, multifunction_virtual_channel as mf, protocol_multiplexing as pmux,
        resizable_bar as rb, root_complex_link_declaration as rl, secondary_pci_express as sec, virtual_channel as vc,
    };
    use dv::compute_express_link::pcie_dvsec_for_cxl_device as cxl;
    vec![
        ("start of device dependent region", pcics::DDR_OFFSET, 0x40),
        ("length of device dependent region", pcics::DDR_LENGTH, 0xc0),
        ("start of extended space", pcics::ECS_OFFSET, 0x100),
        ("length of extended space", pcics::ECS_LENGTH, 0xf00),
        ("header", Header::TOTAL_SIZE, 0x40),
        ("common header part", Header::COMMON_SIZE, 0x10),
        ("capability header", caps::Capability::HEADER_SIZE, 2),
        ("extended capability header", ecaps::ECH_BYTES, 4),
        ("extended capability header", ecaps::ExtendedCapabilityHeader::SIZE, 4),
        ("extended capability header", ecaps::ExtendedCapability::HEADER_SIZE, 4),
        ("bridge subsystem", caps::BridgeSubsystemVendorId::SIZE, 6),
        ("PCI Express", caps::PciExpress::SIZE, 58),
        ("FPB", caps::FlatteningPortalBridge::SIZE, 34),
        ("MSI-X", caps::MsiX::SIZE, 10),
        ("HT slave", ht::SlaveOrPrimaryInterface::SIZE, 26),
        ("HT host", ht::HostOrSecondaryInterface::SIZE, 22),
        ("HT revision", ht::RevisionId::SIZE, 1),
        ("HT MSI mapping", ht::MsiMapping::SIZE, 10),
        ("MSI 32-bit", msi::MSI_32BIT_SIZE, 10),
        ("MSI 64-bit", msi::MSI_64BIT_SIZE, 14),
        ("MSI 32-bit with masks", msi::MSI_32BIT_PVM_SIZE, 18),
        ("MSI 64-bit with masks", msi::MSI_64BIT_PVM_SIZE, 22),
        ("MSI control", msi::MessageControl::SIZE, 2),
        ("CXL capability", cxl::CxlCapability::SIZE, 2),
        ("CXL control", cxl::CxlControl::SIZE, 2),
        ("CXL status", cxl::CxlStatus::SIZE, 2),
        ("CXL control 2", cxl::CxlControl2::SIZE, 2),
        ("CXL status 2", cxl::CxlStatus2::SIZE, 2),
        ("CXL lock", cxl::CxlLock::SIZE, 2),
        ("CXL capability 2", cxl::CxlCapability2::SIZE, 2),
        ("CXL range size", cxl::CxlRangeSize::SIZE, 8),
        ("CXL range base", cxl::CxlRangeBase::SIZE, 8),
        ("CXL device", cxl::PcieDvsecForCxlDevice::SIZE, 46),
        ("DVSEC headers", dv::Dvsec::MIN_SIZE, 10),
        ("FRS queuing", ecaps::FrsQueuing::SIZE, 0x10),
        ("FRS capability", frs::FrsQueuingCapability::SIZE, 4),
        ("FRS status", frs::FrsQueuingStatus::SIZE, 2),
        ("FRS control", frs::FrsQueuingControl::SIZE, 2),
        ("FRS message queue", frs::FrsMessageQueue::SIZE, 4),
        ("MFVC resource", mf::ExtendedVirtualChannel::SIZE, 12),
        ("VC resource", vc::ExtendedVirtualChannel::SIZE, 12),
        ("M-PHY", ecaps::PciExpressOverMphy::SIZE, 0x1c),
        ("access correlation", ecaps::ConfigurationAccessCorrelation::SIZE, 8),
        ("resizable BAR entry", rb::ResizableBar::ENTRY_SIZE, 8),
        ("multicast", ecaps::Multicast::SIZE, 0x30),
        ("LN requester", ecaps::LnRequester::SIZE, 8),
        ("SR-IOV", ecaps::SingleRootIoVirtualization::BYTES, 0x3c),
        ("lane equalization offset", sec::ECL_OFFSET, 0xc),
        ("AER", aer::AdvancedErrorReporting::COMMON_SIZE, 0x28),
        ("AER with root registers", aer::AdvancedErrorReporting::RP_AND_RCEC_SIZE, 0x34),
        ("AER with prefix log", aer::AdvancedErrorReporting::FULL_SIZE, 0x44),
        ("AER header log", aer::AdvancedErrorReporting::HEADER_LOG_SIZE, 16),
        ("AER prefix log", aer::AdvancedErrorReporting::TLP_PREFIX_LOG_SIZE, 16),
        ("PMUX entry", pmux::PmuxProtocolArrayEntry::SIZE, 4),
        ("internal link control", ecaps::RootComplexInternalLinkControl::SIZE, 8),
        ("element self description", rl::ElementSelfDescription::BYTES, 4),
        ("first link entry", rl::LinkEntries::FIRST_ENTRY_OFFSET, 0xc),
        ("link entry", rl::LinkEntry::SIZE, 16),
        ("link entry dwords", rl::LinkEntry::DWORDS, 4),
        ("readiness time", ecaps::ReadinessTimeReporting::SIZE, 0xc),
        ("register block", ecaps::RootComplexRegisterBlockHeader::SIZE, 0x14),
        ("event collector bitmap", ecaps::RootComplexEventCollectorEndpointAssociation::SIZE, 4),
    ]
}
