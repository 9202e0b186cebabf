//! Equality is faithful: what compares equal looks equal through everything it reports, and what
//! comes from the same bytes compares equal, at every point of a list's consumption.
use crate::engine::*;
use crate::gen::*;
use crate::judge::Sink;
use crate::model::header as mh;
use crate::work::*;
use pcics::capabilities::{enhanced_allocation as ea, Capabilities, Capability, CapabilityKind as K};
use pcics::extended_capabilities::{
    access_control_services as acs, multifunction_virtual_channel as mf, protocol_multiplexing as pmux,
    root_complex_link_declaration as rcld, virtual_channel as vc, ExtendedCapabilities,
    ExtendedCapability, ExtendedCapabilityKind as E,
};
use pcics::header::{BaseAddresses, Header, HeaderType};
use std::fmt::{Debug, Write};

const T: Tags = c(26);
const CAP: usize = 2000;

/// Two values, whether they show the same contents, and whether they must be equal.
fn pair<X: PartialEq + Debug>(o: &mut Out, what: &str, a: &X, b: &X, same_view: bool, same_origin: bool) {
    #[allow(clippy::eq_op)]
    let own = a == a;
    o.check(T, own, || format!("{what}: {a:?} is not equal to itself"));
    let eq = a == b;
    o.check(T, (b == a) == eq && (a != b) == !eq, || format!("{what}: comparison is not symmetric: {a:?}, {b:?}"));
    o.check(T, eq || !same_origin, || format!("{what}: {a:?} and {b:?}, from the same bytes, are not equal"));
    o.check(T, same_view || !eq, || format!("{what}: {a:?} and {b:?} compare equal but report different contents"));
    o.count(if eq { "equal_pairs" } else { "unequal_pairs" });
}

fn view(f: impl FnOnce(&mut Sink)) -> u64 {
    let mut s = Sink::new();
    f(&mut s);
    s.h
}
fn put(s: &mut Sink, v: &impl Debug) {
    let _ = write!(s, "{v:?};");
}
fn items<I: Iterator>(s: &mut Sink, it: I)
where
    I::Item: Debug,
{
    for x in it.take(CAP) {
        put(s, &x);
    }
    let _ = write!(s, ".");
}

/// Plain values which show all they hold in their Debug output.
fn values<X: PartialEq + Debug>(o: &mut Out, what: &str, a: &X, b: &X, same_origin: bool) {
    let v = |x: &X| view(|s| put(s, x));
    pair(o, what, a, b, v(a) == v(b), same_origin);
}
/// The elements of two lists: those in the same position, neighbours and some others.
fn elements<I>(o: &mut Out, r: &mut Rng, what: &str, a: I, b: I, same_origin: bool)
where
    I: Iterator,
    I::Item: PartialEq + Debug,
{
    let (va, vb): (Vec<_>, Vec<_>) = (a.collect(), b.collect());
    let shown = |v: &[I::Item]| v.iter().map(|x| view(|s| put(s, x))).collect::<Vec<_>>();
    let (sa, sb) = (shown(&va), shown(&vb));
    for j in 0..va.len() {
        for k in [j, r.below(12)] {
            if k < vb.len() {
                pair(o, what, &va[j], &vb[k], sa[j] == sb[k], same_origin && j == k);
            }
        }
    }
}

/// Lists `a` and `b` after every few steps each.
fn lists<I>(o: &mut Out, r: &mut Rng, what: &str, a: I, b: I, same_origin: bool)
where
    I: Iterator + Clone + PartialEq + Debug,
    I::Item: PartialEq + Debug,
{
    elements(o, r, what, a.clone().take(12), b.clone().take(12), same_origin);
    let step = |it: &I| {
        let mut v = vec![it.clone()];
        while v.len() < 12 {
            let mut n = v[v.len() - 1].clone();
            let more = n.next().is_some();
            v.push(n);
            if !more {
                break;
            }
        }
        let s: Vec<u64> = v.iter().map(|i| view(|s| items(s, i.clone()))).collect();
        (v, s)
    };
    let ((va, sa), (vb, sb)) = (step(&a), step(&b));
    for j in 0..va.len() {
        for k in [j, j + 1, r.below(12)] {
            if k < vb.len() {
                pair(o, what, &va[j], &vb[k], sa[j] == sb[k], same_origin && j == k);
            }
        }
    }
}

fn bare<const N: usize>(b: &mut BaseAddresses<N>) -> BaseAddresses<N> {
    std::mem::replace(b, BaseAddresses::new([0; N]))
}
fn header_view(h: &Header) -> u64 {
    let mut h = h.clone();
    view(|s| {
        match &mut h.header_type {
            HeaderType::Normal(n) => items(s, bare(&mut n.base_addresses)),
            HeaderType::Bridge(n) => items(s, bare(&mut n.base_addresses)),
            HeaderType::Cardbus(n) => items(s, bare(&mut n.base_addresses)),
            _ => (),
        }
        put(s, &h);
    })
}
fn conv_view(x: &Capability) -> u64 {
    view(|s| {
        put(s, &x.pointer);
        put(s, &conv_kind_view(&x.kind));
    })
}
pub fn conv_kind_view(k: &K) -> u64 {
    view(|s| {
        match k {
            K::EnhancedAllocation(e) => {
                put(s, &(e.num_entries, &e.type_1_second_dw));
                items(s, e.entries.clone());
            }
            k => put(s, k),
        }
    })
}
fn ext_view(x: &ExtendedCapability) -> u64 {
    view(|s| {
        put(s, &(x.offset, x.version, x.id()));
        put(s, &ext_kind_view(&x.kind));
    })
}
pub fn ext_kind_view(k: &E) -> u64 {
    view(|s| {
        match k {
            E::VirtualChannel(v) | E::VirtualChannelMfvcPresent(v) => {
                put(s, &(&v.port_vc_capability_1, &v.port_vc_capability_2, &v.port_vc_control, &v.port_vc_status));
                items(s, v.vc_arbitration_table());
                for e in v.extended_virtual_channels().take(CAP) {
                    put(s, &e);
                    if let Ok(e) = e {
                        items(s, v.port_arbitration_table(&e));
                    }
                }
            }
            E::MultifunctionVirtualChannel(v) => {
                put(s, &(&v.port_vc_capability_1, &v.port_vc_capability_2, &v.port_vc_control, &v.port_vc_status));
                if let Some(t) = &v.vc_arbitration_table {
                    items(s, t.clone());
                }
                for e in v.extended_virtual_channels.clone().take(CAP) {
                    put(s, &(&e.vc_resource_capability, &e.vc_resource_control, &e.vc_resource_status));
                    if let Some(t) = e.function_arbitration_table {
                        items(s, t);
                    }
                }
            }
            E::RootComplexLinkDeclaration(v) => {
                put(s, &(&v.element_self_description, &v.link_entries.state));
                items(s, v.link_entries.clone());
            }
            E::AccessControlServices(v) => {
                put(s, &(&v.acs_capability, &v.acs_control));
                items(s, v.egress_control_vectors());
            }
            E::ResizableBar(v) | E::VfResizableBar(v) => items(s, v.clone()),
            E::ProtocolMultiplexing(v) => {
                put(s, &(&v.pmux_capability, &v.pmux_control, &v.pmux_status));
                items(s, v.pmux_protocol_array.clone());
            }
            E::SingleRootIoVirtualization(v) => {
                let mut v = v.clone();
                items(s, bare(&mut v.base_addresses));
                put(s, &v);
            }
            E::SecondaryPciExpress(v) => {
                put(s, &(&v.link_control_3, &v.lane_error_status));
                items(s, v.equalization_control_lanes(crate::model::pcie::width(32)));
            }
            k => put(s, k),
        }
    })
}

fn conv_pair(o: &mut Out, r: &mut Rng, a: (&[u8], &Header), b: (&[u8], &Header), same: bool) {
    let (la, lb) = (Capabilities::new(a.0, a.1), Capabilities::new(b.0, b.1));
    let seen = |it: Capabilities| {
        view(|s| {
            for x in it.take(CAP) {
                match &x {
                    Ok(x) => put(s, &conv_view(x)),
                    Err(e) => put(s, e),
                }
            }
        })
    };
    pair(o, "conventional list", &la, &lb, seen(la) == seen(lb), same);
    for (x, y) in la.take(CAP).zip(lb.take(CAP)) {
        match (&x, &y) {
            (Ok(p), Ok(q)) => {
                pair(o, "conventional structure", p, q, conv_view(p) == conv_view(q), same);
                if let (K::EnhancedAllocation(e), K::EnhancedAllocation(f)) = (&p.kind, &q.kind) {
                    lists(o, r, "EA entries", e.entries.clone(), f.entries.clone(), same);
                }
                if let (K::PowerManagementInterface(e), K::PowerManagementInterface(f)) = (&p.kind, &q.kind) {
                    values(o, "power data", &e.data(), &f.data(), same);
                }
            }
            (Err(e), Err(f)) => {
                let v = |e: &dyn Debug| format!("{e:?}");
                pair(o, "error", e, f, v(e) == v(f), same)
            }
            _ => o.check(T, x != y, || format!("{x:?} equals {y:?}")),
        }
    }
}

fn ext_pair(o: &mut Out, r: &mut Rng, a: &[u8], b: &[u8], same: bool) {
    let (la, lb) = (ExtendedCapabilities::new(a), ExtendedCapabilities::new(b));
    let seen = |it: ExtendedCapabilities| {
        view(|s| {
            for x in it.take(CAP) {
                match &x {
                    Ok(x) => put(s, &ext_view(x)),
                    Err(e) => put(s, e),
                }
            }
        })
    };
    pair(o, "extended list", &la, &lb, seen(la) == seen(lb), same);
    for (x, y) in la.take(CAP).zip(lb.take(CAP)) {
        match (&x, &y) {
            (Ok(p), Ok(q)) => {
                pair(o, "extended structure", p, q, ext_view(p) == ext_view(q), same);
                match (&p.kind, &q.kind) {
                    (E::VirtualChannel(v), E::VirtualChannel(w)) | (E::VirtualChannelMfvcPresent(v), E::VirtualChannelMfvcPresent(w)) => {
                        values(o, "port VC capability 1", &v.port_vc_capability_1, &w.port_vc_capability_1, same);
                        values(o, "port VC capability 2", &v.port_vc_capability_2, &w.port_vc_capability_2, same);
                        values(o, "port VC control", &v.port_vc_control, &w.port_vc_control, same);
                        values(o, "port VC status", &v.port_vc_status, &w.port_vc_status, same);
                        lists(o, r, "VC arbitration table", v.vc_arbitration_table(), w.vc_arbitration_table(), same);
                        let (ev, ew) = (v.extended_virtual_channels(), w.extended_virtual_channels());
                        lists(o, r, "VC resources", ev.clone(), ew.clone(), same);
                        for (e, f) in ev.flatten().take(8).zip(ew.flatten().take(8)) {
                            values(o, "VC resource capability", &e.vc_resource_capability, &f.vc_resource_capability, same);
                            values(o, "VC resource control", &e.vc_resource_control, &f.vc_resource_control, same);
                            values(o, "VC resource status", &e.vc_resource_status, &f.vc_resource_status, same);
                            lists(o, r, "port arbitration table", v.port_arbitration_table(&e), w.port_arbitration_table(&f), same);
                        }
                    }
                    (E::MultifunctionVirtualChannel(v), E::MultifunctionVirtualChannel(w)) => {
                        values(o, "port VC capability 1", &v.port_vc_capability_1, &w.port_vc_capability_1, same);
                        values(o, "port VC capability 2", &v.port_vc_capability_2, &w.port_vc_capability_2, same);
                        values(o, "port VC control", &v.port_vc_control, &w.port_vc_control, same);
                        values(o, "port VC status", &v.port_vc_status, &w.port_vc_status, same);
                        if let (Some(t), Some(u)) = (&v.vc_arbitration_table, &w.vc_arbitration_table) {
                            lists(o, r, "MFVC arbitration table", t.clone(), u.clone(), same);
                        }
                        let (ev, ew) = (v.extended_virtual_channels.clone(), w.extended_virtual_channels.clone());
                        for (e, f) in ev.take(8).zip(ew.take(8)) {
                            let seen = |e: &mf::ExtendedVirtualChannel| {
                                view(|s| {
                                    put(s, &(&e.vc_resource_capability, &e.vc_resource_control, &e.vc_resource_status));
                                    put(s, &e.function_arbitration_table.is_some());
                                    if let Some(t) = e.function_arbitration_table.clone() {
                                        items(s, t);
                                    }
                                })
                            };
                            pair(o, "MFVC resource", &e, &f, seen(&e) == seen(&f), same);
                            values(o, "MFVC resource capability", &e.vc_resource_capability, &f.vc_resource_capability, same);
                            values(o, "MFVC resource control", &e.vc_resource_control, &f.vc_resource_control, same);
                            values(o, "MFVC resource status", &e.vc_resource_status, &f.vc_resource_status, same);
                            if let (Some(t), Some(u)) = (e.function_arbitration_table, f.function_arbitration_table) {
                                lists(o, r, "function arbitration table", t, u, same);
                            }
                        }
                    }
                    (E::RootComplexLinkDeclaration(v), E::RootComplexLinkDeclaration(w)) => {
                        values(o, "element self description", &v.element_self_description, &w.element_self_description, same);
                        lists(o, r, "link entries", v.link_entries.clone(), w.link_entries.clone(), same)
                    }
                    (E::AccessControlServices(v), E::AccessControlServices(w)) => {
                        values(o, "ACS capability", &v.acs_capability, &w.acs_capability, same);
                        values(o, "ACS control", &v.acs_control, &w.acs_control, same);
                        lists(o, r, "egress vector", v.egress_control_vectors(), w.egress_control_vectors(), same)
                    }
                    (E::ResizableBar(v), E::ResizableBar(w)) | (E::VfResizableBar(v), E::VfResizableBar(w)) => lists(o, r, "resizable BARs", v.clone(), w.clone(), same),
                    (E::SecondaryPciExpress(v), E::SecondaryPciExpress(w)) => {
                        values(o, "link control 3", &v.link_control_3, &w.link_control_3, same);
                        values(o, "lane error status", &v.lane_error_status, &w.lane_error_status, same);
                        let lanes = |v: &pcics::extended_capabilities::SecondaryPciExpress| {
                            v.equalization_control_lanes(crate::model::pcie::width(32)).take(12).collect::<Vec<_>>().into_iter()
                        };
                        elements(o, r, "lanes", lanes(v), lanes(w), same);
                    }
                    (E::ProtocolMultiplexing(v), E::ProtocolMultiplexing(w)) => {
                        values(o, "PMUX capability", &v.pmux_capability, &w.pmux_capability, same);
                        values(o, "PMUX control", &v.pmux_control, &w.pmux_control, same);
                        values(o, "PMUX status", &v.pmux_status, &w.pmux_status, same);
                        lists(o, r, "PMUX protocols", v.pmux_protocol_array.clone(), w.pmux_protocol_array.clone(), same)
                    }
                    (E::SingleRootIoVirtualization(v), E::SingleRootIoVirtualization(w)) => {
                        lists(o, r, "VF BARs", v.base_addresses.clone(), w.base_addresses.clone(), same)
                    }
                    _ => (),
                }
            }
            (Err(e), Err(f)) => {
                let v = |e: &dyn Debug| format!("{e:?}");
                pair(o, "error", e, f, v(e) == v(f), same)
            }
            _ => o.check(T, x != y, || format!("{x:?} equals {y:?}")),
        }
    }
}

/// Every state of one walk against the states of another (lists that loop come back to a place with
/// different prospects).
fn walks<I>(o: &mut Out, r: &mut Rng, what: &str, a: I, b: I, same: bool, seen: &dyn Fn(&I::Item) -> u64)
where
    I: Iterator + Clone + PartialEq + Debug,
{
    let states = |it: &I| {
        let (mut v, mut h, mut cur) = (vec![it.clone()], vec![], it.clone());
        while let Some(x) = cur.next() {
            h.push(seen(&x));
            v.push(cur.clone());
            if v.len() > CAP {
                break;
            }
        }
        v.push(cur);
        // what remains from each state on
        let mut rest = vec![0x9e37_79b9_7f4a_7c15u64; v.len()];
        for i in (0..h.len()).rev() {
            rest[i] = (rest[i + 1] ^ h[i]).wrapping_mul(0x100_0000_01b3).rotate_left(23);
        }
        (v, rest)
    };
    let ((va, ra), (vb, rb)) = (states(&a), states(&b));
    let last = va.len() - 1;
    for _ in 0..24 {
        let j = r.below(va.len());
        let k = match r.below(4) {
            0 => last.min(vb.len() - 1),
            1 => last.min(vb.len() - 1).saturating_sub(1 + r.below(2)),
            2 => j.min(vb.len() - 1),
            _ => r.below(vb.len()),
        };
        pair(o, what, &va[j], &vb[k], ra[j] == rb[k], same && j == k);
    }
    // the place where the list ends silently, against every earlier one
    for j in 0..last.min(60) {
        pair(o, what, &va[j], &va[last], ra[j] == ra[last], false);
    }
    o.count("walk_states");
}

fn header_pair(o: &mut Out, r: &mut Rng, a: &[u8; 64], b: &[u8; 64], same: bool) {
    let (h, g) = (Header::from(*a), Header::from(*b));
    pair(o, "header", &h, &g, header_view(&h) == header_view(&g), same);
    match (&h.header_type, &g.header_type) {
        (HeaderType::Normal(x), HeaderType::Normal(y)) => lists(o, r, "BARs", x.base_addresses.clone(), y.base_addresses.clone(), same),
        (HeaderType::Bridge(x), HeaderType::Bridge(y)) => lists(o, r, "BARs", x.base_addresses.clone(), y.base_addresses.clone(), same),
        _ => (),
    }
}

fn conv_walks(out: &mut Out, r: &mut Rng, a: &[u8], ha: &[u8; 64], b: &[u8], hb: &[u8; 64], same: bool) {
    let mut rr = r.clone();
    r.next();
    out.case("walks", a, ha, || format!("against {} under {}", hex(b), hex(hb)), |o| {
        let (h, g) = (mh::header(ha), mh::header(hb));
        let seen = |x: &Result<Capability, pcics::capabilities::CapabilityError>| match x {
            Ok(x) => conv_view(x),
            Err(e) => view(|s| put(s, e)),
        };
        walks(o, &mut rr, "conventional list", Capabilities::new(a, &h), Capabilities::new(b, &g), same, &seen);
    });
}
fn ext_walks(out: &mut Out, r: &mut Rng, a: &[u8], b: &[u8], same: bool) {
    let mut rr = r.clone();
    r.next();
    out.case("walks", a, b, String::new, |o| {
        let seen = |x: &Result<ExtendedCapability, pcics::extended_capabilities::ExtendedCapabilityError>| match x {
            Ok(x) => ext_view(x),
            Err(e) => view(|s| put(s, e)),
        };
        walks(o, &mut rr, "extended list", ExtendedCapabilities::new(a), ExtendedCapabilities::new(b), same, &seen);
    });
}

/// A near copy of `a`: the bytes from `from` on vary a little. Says whether it is an exact copy.
fn near(r: &mut Rng, a: &[u8], from: usize, may_cut: bool) -> (Vec<u8>, bool) {
    let mut b = a.to_vec();
    let n = b.len() - from.min(b.len());
    // most differences fall on the registers at the front
    let at = |r: &mut Rng, n: usize| from + if r.one_in(3) { r.below(n) } else { r.below(n.min(40)) };
    match r.below(8) {
        0 => return (b, true),
        _ if n == 0 => return (b, true),
        1 => {
            for _ in 0..1 + r.below(3) {
                let i = at(r, n);
                b[i] = r.byte();
            }
        }
        2 if may_cut => {
            let k = r.below(n.min(20));
            b.truncate(a.len() - k);
        }
        3 => {
            for _ in 0..2 {
                let i = at(r, n);
                b[i] ^= 1 << r.below(8);
            }
        }
        _ => {
            let i = at(r, n);
            b[i] ^= 1 << r.below(8);
        }
    }
    let same = b == a;
    (b, same)
}

/// The same structure (or the same failure) at two places.
fn elsewhere(out: &mut Out, r: &mut Rng, f: &Fix) {
    match f.t {
        Target::Conv(id, _) => {
            let body = &f.data[f.off..];
            let (p, q) = (0x40 + 4 * r.below(48) as u8, 0x40 + 4 * r.below(48) as u8);
            let (a, b) = (conv_place(r, id, 0, p, body), conv_place(r, id, 0, q, body));
            let (mut ha, mut hb) = (mh::header(&f.hb), mh::header(&f.hb));
            ha.capabilities_pointer = p;
            hb.capabilities_pointer = q;
            out.case("elsewhere", &a, &b, || format!("structure {id:02x}h at {p:02x}h and {q:02x}h"), |o| {
                if let (Some(x), Some(y)) = (Capabilities::new(&a, &ha).next(), Capabilities::new(&b, &hb).next()) {
                    let seen = |x: &Result<Capability, _>| match x {
                        Ok(x) => conv_view(x),
                        Err(e) => view(|s| put(s, e)),
                    };
                    pair(o, "conventional structure or error", &x, &y, seen(&x) == seen(&y) && p == q, p == q);
                }
                o.count("places_compared");
            });
        }
        Target::Ext(id) => {
            let body = &f.data[f.off - 4..];
            let v = 1 + r.below(15) as u8;
            let w = if r.one_in(2) { v } else { 1 + r.below(15) as u8 };
            let place = |r: &mut Rng| if r.one_in(3) { 0x100u16 } else { 0x104 + 4 * r.below(900) as u16 };
            let (p, q) = (place(r), place(r));
            let (a, b) = (ext_place(r, id, v, 0, p, body), ext_place(r, id, w, 0, q, body));
            out.case("elsewhere", &a, &b, || format!("structure {id:04x}h at {p:03x}h and {q:03x}h"), |o| {
                let get = |d, p| ExtendedCapabilities::new(d).nth((p != 0x100) as usize);
                if let (Some(x), Some(y)) = (get(&a, p), get(&b, q)) {
                    let seen = |x: &Result<ExtendedCapability, _>| match x {
                        Ok(x) => ext_view(x),
                        Err(e) => view(|s| put(s, e)),
                    };
                    let failed = x.is_err() && y.is_err();
                    let same = p == q && (v == w || failed);
                    pair(o, "extended structure or error", &x, &y, seen(&x) == seen(&y) && same, same);
                }
                o.count("places_compared");
            });
        }
        Target::Head(_) => (),
    }
}

/// Failures of all structures against each other.
fn failures(run: &mut Run) {
    let seed = run.seed;
    run.tasks(16, |i, out| {
        let mut r = Rng::new(seed, 1_370_000 + i as u64, 29);
        let p = 0x40 + 4 * r.below(40) as u8;
        let (mut conv, mut ext) = (vec![], vec![]);
        for id in CONV_IDS {
            for n in 0..conv_len(id) + 4 {
                let body = conv_body(&mut r, id, n, false);
                let data = conv_place(&mut r, id, 0, p, &body);
                let h = mh::header(&header_bytes(&mut r, Hk::Normal, p));
                if let Some(Err(e)) = Capabilities::new(&data, &h).next() {
                    conv.push(e);
                }
            }
        }
        for id in EXT_IDS {
            for n in 4..ext_len(id) + 4 {
                let body = ext_body(&mut r, id, n);
                let data = ext_place(&mut r, id, 1, 0, 0x100, &body);
                if let Some(Err(e)) = ExtendedCapabilities::new(&data).next() {
                    ext.push(e);
                }
            }
        }
        // failures inside a list
        let mut inner = vec![];
        for _ in 0..24 {
            let n = 0x10 + r.below(110);
            let body = ext_body(&mut r, 2, n);
            let data = ext_place(&mut r, 2, 1, 0, 0x100, &body);
            if let Some(Ok(x)) = ExtendedCapabilities::new(&data).next() {
                if let E::VirtualChannel(v) = &x.kind {
                    inner.extend(v.extended_virtual_channels().take(16).filter_map(|e| e.err()));
                }
            }
        }
        out.case("failures", &[i as u8], &[], || "failures of all structures".into(), |o| {
            let shown: Vec<String> = conv.iter().map(|e| format!("{e:?}")).collect();
            for j in 0..conv.len() {
                for k in 0..conv.len() {
                    pair(o, "conventional failures", &conv[j], &conv[k], shown[j] == shown[k], false);
                }
            }
            let shown: Vec<String> = ext.iter().map(|e| format!("{e:?}")).collect();
            for j in 0..ext.len() {
                for k in 0..ext.len() {
                    pair(o, "extended failures", &ext[j], &ext[k], shown[j] == shown[k], false);
                }
            }
            for j in 0..inner.len() {
                for k in 0..inner.len() {
                    values(o, "channel failures", &inner[j], &inner[k], false);
                }
            }
            o.count("failure_sets");
        });
    });
}

/// Two images of one structure or header: equal exactly if what they report is.
fn compare(out: &mut Out, r: &mut Rng, t: Target, f: &Fix, b: &[u8], same: bool) {
    let mut rr = r.clone();
    r.next();
    let key = |h: u64, v: &[u8]| v.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
    out.case("equality", &f.data, b, || format!("{t:?}"), |o| {
        match t {
            Target::Conv(..) => {
                let h = mh::header(&f.hb);
                conv_pair(o, &mut rr, (&f.data, &h), (b, &h), same)
            }
            Target::Ext(_) => ext_pair(o, &mut rr, &f.data, b, same),
            Target::Head(_) => {
                let image = |b: &[u8]| {
                    let mut hb = [0; 64];
                    hb.copy_from_slice(b);
                    hb
                };
                header_pair(o, &mut rr, &image(&f.data), &image(b), same)
            }
        }
        o.note_distinct(key(key(0xcbf29ce484222325, &f.data), b));
    });
}

/// Values that only a method or function makes from registers, each against each.
fn meanings(run: &mut Run) {
    use pcics::capabilities as caps;
    fn all<X: PartialEq + Clone + Debug>(out: &mut Out, what: &'static str, list: Vec<X>) {
        let text: Vec<String> = list.iter().map(|x| format!("{x:?}")).collect();
        for (i, x) in list.iter().enumerate() {
            out.case("meanings", what.as_bytes(), &[i as u8], || what.into(), |o| {
                pair(o, what, x, &x.clone(), true, true);
                for (j, y) in list.iter().enumerate() {
                    pair(o, what, x, y, text[i] == text[j], i == j);
                }
                o.count("meanings");
            });
        }
    }
    run.tasks(1, |_, out| {
        for ext in [false, true] {
            let f = |v| caps::hypertransport::LinkFrequency::new(ext, v);
            all(out, "link frequency", (0..16).map(f).collect());
        }
        all(out, "link frequency", (0..32).map(|v| caps::hypertransport::LinkFrequency::new(v > 15, v & 15)).collect());
    });
}

/// Every structure against itself with each of its bits changed.
fn every_bit(run: &mut Run, targets: &[Target]) {
    let (seed, bases, deep) = (run.seed, run.pick(16, 160), run.pick(1, 2));
    run.tasks(targets.len() * 8, |i, out| {
        let t = targets[i % targets.len()];
        let mut r = Rng::new(seed, 1_250_000 + i as u64, 29);
        for k in 0..bases / 8 {
            // every register that may be there should be: the most talkative of a few images
            let mut f = t.fix(&mut r, 4, None);
            let mut most = 0;
            for _ in 0..if k == 0 { 30 } else { 4 } {
                let g = t.fix(&mut r, 4, None);
                let said = match t {
                    Target::Conv(..) => match Capabilities::new(&g.data, &mh::header(&g.hb)).next() {
                        Some(Ok(c)) => format!("{c:?}").len(),
                        _ => 0,
                    },
                    Target::Ext(_) => match ExtendedCapabilities::new(&g.data).next() {
                        Some(Ok(c)) => format!("{c:?}").len(),
                        _ => 0,
                    },
                    Target::Head(_) => 1,
                };
                // (contents passed on as they are say a lot, but nothing of interest)
                let said = if g.data.len() > g.off + 300 { said / 8 } else { said };
                if said > most {
                    (f, most) = (g, said);
                }
            }
            for at in f.off..f.data.len().min(f.off + 72) {
                for bit in 0..8 {
                    let mut b = f.data.clone();
                    b[at] ^= 1 << bit;
                    compare(out, &mut r, t, &f, &b, false);
                }
                out.add("bits_compared", 8);
            }
            // all values of every small field against each other
            if k > 0 || i >= targets.len() * if matches!(t, Target::Conv(..)) { 4 * deep } else { deep } {
                continue;
            }
            // the registers in front count most; the header has all of its own in front
            let end = f.data.len().min(f.off + 64).saturating_sub(1);
            for at in f.off * 8..end * 8 {
                let wide = at % 8 > 4 || r.one_in(3);
                let bits = if wide { 4 } else { 3 };
                let set = |v: u16| {
                    let mut b = f.data.clone();
                    let (j, s) = (at / 8, at % 8);
                    let w = u16::from_le_bytes([b[j], b[j + 1]]);
                    let w = w & !(((1 << bits) - 1) << s) | v << s;
                    b[j..j + 2].copy_from_slice(&w.to_le_bytes());
                    b
                };
                for x in 0..1u16 << bits {
                    let fx = Fix { t, data: set(x), hb: f.hb, off: f.off, len: f.len };
                    for y in 0..x {
                        if bits == 3 || r.one_in(4) {
                            compare(out, &mut r, t, &fx, &set(y), false);
                        }
                    }
                }
                out.add("fields_compared", 1);
            }
            if out.stopped() {
                return;
            }
        }
    });
}

pub fn all(run: &mut Run) {
    crate::extra::error_texts(run);
    crate::extra::rcld_serial(run);
    failures(run);
    meanings(run);
    run.rule = "pairs of register images (hash of both)".into();
    let seed = run.seed;
    let mut targets = Target::of(&CONV_IDS, &EXT_IDS);
    targets.extend((0..4).map(Target::Head));
    let per = run.pick(50_000, 400_000);
    let tasks = targets.len() * 8;
    let targets = &targets;
    run.tasks(tasks, |i, out| {
        let t = targets[i % targets.len()];
        let mut r = Rng::new(seed, 1_200_000 + i as u64, 26);
        for _ in 0..per / 8 {
            let n = match t {
                Target::Conv(id, _) if r.one_in(2) => Some(conv_body_len(&mut r, id)),
                Target::Ext(id) if r.one_in(2) => Some(ext_body_len(&mut r, id)),
                _ => None,
            };
            let f = t.fix(&mut r, 4, n);
            if r.one_in(4) {
                elsewhere(out, &mut r, &f);
            }
            let cut = !matches!(t, Target::Head(_));
            let (b, same) = near(&mut r, &f.data, f.off, cut);
            compare(out, &mut r, t, &f, &b, same);
            if out.stopped() {
                return;
            }
        }
        out.sample(|| format!("{t:?}: pairs of images one bit, one byte or one length apart"));
    });
    every_bit(run, targets);
    // whole walks, with loops, under equal and different headers
    run.tasks(64, |i, out| {
        let mut r = Rng::new(seed, 1_350_000 + i as u64, 28);
        for _ in 0..per / 64 {
            let hk = r.pick(&HKS);
            let (start, data) = conv_space(&mut r, hk == Hk::Bridge);
            let mut hb = header_bytes(&mut r, hk, start);
            if data.len() > 2 && r.one_in(3) {
                // come back to somewhere
                let steps = crate::judge::ref_conv(&data, start);
                let mut data2 = data.clone();
                if let Some(crate::judge::Step::At(p, _)) = steps.get(r.below(steps.len().max(1))) {
                    if let Some(crate::judge::Step::At(q, _)) = steps.last() {
                        data2[*q as usize - 0x40 + 1] = *p as u8;
                    }
                }
                conv_walks(out, &mut r, &data2, &hb, &data2.clone(), &hb, true);
            }
            let (b, same) = near(&mut r, &data, 0, true);
            conv_walks(out, &mut r, &data, &hb, &b, &hb, same);
            let first = hb;
            match r.below(3) {
                0 => hb[0xe] = hb[0xe] & 0x80 | r.below(4) as u8,
                1 => hb[0..4].copy_from_slice(&[0xf4, 0x1a, 0x41, 0x10]),
                _ => hb[r.below(64)] ^= 1 << r.below(8),
            }
            conv_walks(out, &mut r, &data, &first, &data.clone(), &hb, false);
            let data = ext_space(&mut r);
            let (b, same) = near(&mut r, &data, 0, true);
            ext_walks(out, &mut r, &data, &b, same);
            let steps = crate::judge::ref_ext(&data);
            let mut data2 = data.clone();
            if let Some(crate::judge::Step::At(p, _)) = steps.get(r.below(steps.len().max(1))) {
                if let Some(crate::judge::Step::At(q, _)) = steps.last() {
                    let o = *q as usize - 0x100;
                    data2[o + 2] = data2[o + 2] & 0xf | (*p as u8) << 4;
                    data2[o + 3] = (*p >> 4) as u8;
                }
            }
            ext_walks(out, &mut r, &data2, &data2.clone(), true);
            if out.stopped() {
                return;
            }
        }
    });
    // lists made directly over small tables, so that every element is near the difference
    run.tasks(64, |i, out| {
        let mut r = Rng::new(seed, 1_300_000 + i as u64, 27);
        for _ in 0..per / 16 {
            let most = if r.one_in(8) { 70 } else { 6 };
            let n = 1 + r.below(most);
            let a = background(&mut r, n);
            let (b, same) = near(&mut r, &a, 0, true);
            let bits = r.pick(&[1usize, 2, 4, 8]);
            let bits2 = if r.one_in(8) { r.pick(&[1usize, 2, 4, 8]) } else { bits };
            let s2 = same && bits == bits2;
            let cnt = r.below(8) as u8;
            let cnt2 = if r.one_in(2) { cnt } else { r.below(8) as u8 };
            let mut rr = r.clone();
            r.next();
            out.case("equality", &a, &b, || format!("tables of {bits} and {bits2} bit entries"), |o| {
                let r = &mut rr;
                lists(o, r, "port arbitration table", vc::PortArbitrationTable::new(&a, bits), vc::PortArbitrationTable::new(&b, bits2), s2);
                lists(o, r, "function arbitration table", mf::FunctionArbitrationTable::new(&a, bits), mf::FunctionArbitrationTable::new(&b, bits2), s2);
                lists(o, r, "VC arbitration table", vc::VcArbitrationTable::new(&a), vc::VcArbitrationTable::new(&b), same);
                lists(o, r, "PMUX protocols", pmux::PmuxProtocolArray::new(&a), pmux::PmuxProtocolArray::new(&b), same);
                lists(o, r, "egress vector", acs::EgressControlVectors::new(&a, 8 * a.len()), acs::EgressControlVectors::new(&b, 8 * b.len()), same);
                lists(o, r, "EA entries", ea::EnhancedAllocationEntries::new(&a, cnt), ea::EnhancedAllocationEntries::new(&b, cnt), same);
                lists(o, r, "link entries", rcld::LinkEntries::new(&a, cnt), rcld::LinkEntries::new(&b, cnt), same);
                let (x, y) = (rcld::LinkEntries::new(&a, cnt), rcld::LinkEntries::new(&b, cnt2));
                let seen = |l: &rcld::LinkEntries| view(|s| {
                    put(s, &l.state);
                    items(s, l.clone());
                });
                pair(o, "link entries", &x, &y, seen(&x) == seen(&y), same && cnt == cnt2);
                o.count("small_tables");
            });
            if out.stopped() {
                return;
            }
        }
    });
}
