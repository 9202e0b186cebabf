//! Determinism: the same bytes give the same answer every time, from every thread, from every copy
//! of a half-consumed list, through every way of consuming it, and without touching the heap.
use crate::engine::*;
use crate::gen::*;
use crate::judge::Sink;
use crate::model::header as mh;
use pcics::capabilities::{Capabilities, CapabilityKind as K};
use pcics::extended_capabilities::{ExtendedCapabilities, ExtendedCapabilityKind as E};
use pcics::header::{Header, HeaderType};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{Debug, Write};
use std::marker::PhantomData;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
/// Allocator that counts the requests of each thread.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.realloc(p, l, n)
    }
}
fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}

const T: Tags = c(23);
const CAP: usize = 2000;

fn sum<I: Iterator>(s: &mut Sink, it: I)
where
    I::Item: Debug,
{
    for x in it.take(CAP) {
        let _ = write!(s, "{x:?};");
    }
    let _ = write!(s, ".");
}

/// Everything a caller can see of a conventional list, folded into one number, without allocating.
fn seen_conv(d: &[u8], h: &Header) -> u64 {
    let mut s = Sink::new();
    for x in Capabilities::new(d, h).take(CAP) {
        let _ = write!(s, "{x:?};");
        match &x {
            Ok(cap) => {
                if let K::EnhancedAllocation(e) = &cap.kind {
                    sum(&mut s, e.entries.clone());
                }
            }
            Err(e) => {
                let _ = write!(s, "{e}");
            }
        }
    }
    s.h
}
fn seen_ext(d: &[u8]) -> u64 {
    let mut s = Sink::new();
    for x in ExtendedCapabilities::new(d).take(CAP) {
        let _ = write!(s, "{x:?};");
        match &x {
            Ok(cap) => match &cap.kind {
                E::VirtualChannel(v) | E::VirtualChannelMfvcPresent(v) => {
                    sum(&mut s, v.vc_arbitration_table());
                    sum(&mut s, v.extended_virtual_channels());
                    for e in v.extended_virtual_channels().flatten().take(CAP) {
                        sum(&mut s, v.port_arbitration_table(&e));
                    }
                }
                E::MultifunctionVirtualChannel(v) => {
                    v.vc_arbitration_table.iter().for_each(|t| sum(&mut s, t.clone()));
                    sum(&mut s, v.extended_virtual_channels.clone());
                    for e in v.extended_virtual_channels.clone().take(CAP) {
                        e.function_arbitration_table.into_iter().for_each(|t| sum(&mut s, t));
                    }
                }
                E::RootComplexLinkDeclaration(v) => sum(&mut s, v.link_entries.clone()),
                E::AccessControlServices(v) => sum(&mut s, v.egress_control_vectors()),
                E::ResizableBar(v) | E::VfResizableBar(v) => sum(&mut s, v.clone()),
                E::ProtocolMultiplexing(v) => sum(&mut s, v.pmux_protocol_array.clone()),
                E::SingleRootIoVirtualization(v) => sum(&mut s, v.base_addresses.clone()),
                E::SecondaryPciExpress(v) => {
                    sum(&mut s, v.equalization_control_lanes(crate::model::pcie::width(16)))
                }
                _ => (),
            },
            Err(e) => {
                let _ = write!(s, "{e}");
            }
        }
    }
    s.h
}
fn seen_header(b: &[u8]) -> u64 {
    let mut s = Sink::new();
    match Header::try_from(b) {
        Ok(h) => {
            let _ = write!(s, "{h:?}");
            match &h.header_type {
                HeaderType::Normal(n) => sum(&mut s, n.base_addresses.clone()),
                HeaderType::Bridge(n) => sum(&mut s, n.base_addresses.clone()),
                HeaderType::Cardbus(n) => sum(&mut s, n.base_addresses.clone()),
                _ => (),
            }
            let _ = write!(s, "{:?}", h.class_code.meaning());
        }
        Err(e) => {
            let _ = write!(s, "{e} {e:?}");
        }
    }
    s.h
}

/// Change one header field, or one bit of the list.
fn vary(r: &mut Rng, hb: &mut [u8; 64], list: &mut [u8]) {
    match r.below(7) {
        0 => hb[0] ^= 1 << r.below(8),
        1 => hb[1] ^= 1 << r.below(8),
        2 => hb[2 + r.below(2)] ^= 1 << r.below(8),
        3 => hb[0xe] ^= r.pick(&[1, 2, 3, 0x80]),
        4 => hb[8 + r.below(4)] ^= 1 << r.below(8),
        5 => hb[r.below(64)] ^= 1 << r.below(8),
        _ if !list.is_empty() => {
            let k = r.below(list.len());
            list[k] ^= 1 << r.below(8);
        }
        _ => (),
    }
}

/// A region to be decoded: header bytes, conventional bytes, extended bytes.
struct Region {
    hb: [u8; 64],
    conv: Vec<u8>,
    ext: Vec<u8>,
}
impl Region {
    fn random(r: &mut Rng) -> Self {
        let hk = r.pick(&HKS);
        let (start, conv) = conv_space(r, hk == Hk::Bridge);
        let hb = header_bytes(r, hk, start);
        let ext = ext_space(r);
        Region { hb, conv, ext }
    }
    /// One that shares nearly everything with this one.
    fn sibling(&self, r: &mut Rng) -> Self {
        let mut s = Region { hb: self.hb, conv: self.conv.clone(), ext: self.ext.clone() };
        vary(r, &mut s.hb, &mut s.conv);
        if r.one_in(2) && !s.ext.is_empty() {
            let k = r.below(s.ext.len());
            s.ext[k] ^= 1 << r.below(8);
        }
        s
    }
    fn seen(&self) -> [u64; 3] {
        let h = mh::header(&self.hb);
        [seen_header(&self.hb), seen_conv(&self.conv, &h), seen_ext(&self.ext)]
    }
    fn both(&self) -> Vec<u8> {
        let mut v = self.conv.clone();
        v.extend(&self.ext);
        v
    }
}

/// Clone the list at every position; both copies must finish as the original would, through every
/// way of consuming an iterator.
fn clones<I>(o: &mut Out, what: &str, it: I)
where
    I: Iterator + Clone,
    I::Item: Debug + PartialEq,
{
    let all: Vec<I::Item> = it.clone().take(CAP).collect();
    if all.len() == CAP {
        return; // not this property's business
    }
    let again: Vec<I::Item> = it.clone().take(CAP).collect();
    o.check(T, all == again, || format!("{what}: {all:?}, from an equal copy {again:?}"));
    let mut cur = it.clone();
    for k in 0..=all.len() {
        let (lo, hi) = cur.size_hint();
        let left = all.len() - k;
        o.check(T, lo <= left && hi.is_none_or(|h| left <= h), || {
            format!("{what}: {left} items remain, announced {lo}..{hi:?}")
        });
        if k <= 6 || k + 3 > all.len() || k % 29 == 0 {
            let copy = cur.clone();
            let tail: Vec<I::Item> = copy.take(CAP).collect();
            o.check(T, tail[..] == all[k..], || {
                format!("{what}: a copy taken after {k} items yields {tail:?}, the rest is {:?}", &all[k..])
            });
            o.check(T, cur.clone().take(CAP).count() == left, || format!("{what}: count() after {k} items"));
            let mut m = 0;
            let folded = cur.clone().fold(true, |ok, x| {
                m += 1;
                ok && all.get(k + m - 1) == Some(&x)
            });
            o.check(T, folded && m == left, || format!("{what}: fold() after {k} items sees {m} of {left}"));
            o.check(T, cur.clone().last().as_ref() == if left > 0 { all.last() } else { None }, || {
                format!("{what}: last() after {k} items")
            });
            // every skip from the start, a spread of skips from later positions
            let mut skips = vec![0, 1, 2, 3, 7, left, left + 1];
            if k == 0 {
                skips.extend((4..left).filter(|j| left <= 300 || j % 17 == 0));
            } else {
                skips.extend([15, 16, 31, 32, 33, 63, 64, 65, left / 2, left.saturating_sub(1)]);
            }
            for j in skips {
                let mut n = cur.clone();
                let got = n.nth(j);
                o.check(T, got.as_ref() == all[k..].get(j), || {
                    format!("{what}: nth({j}) after {k} items: {got:?}, expected {:?}", all[k..].get(j))
                });
                let after = n.next();
                o.check(T, after.as_ref() == all[k..].get(j + 1), || {
                    format!("{what}: item after nth({j}) after {k} items: {after:?}")
                });
            }
            let found = cur.clone().position(|x| Some(&x) == all.last());
            let first = all[k..].iter().position(|x| Some(x) == all.last());
            o.check(T, found == first, || format!("{what}: position() after {k} items: {found:?}, expected {first:?}"));
            let found = cur.clone().find(|x| Some(x) == all.last());
            o.check(T, found.is_some() == first.is_some(), || format!("{what}: find() after {k} items: {found:?}"));
            let (mut m, mut ok) = (0, true);
            cur.clone().for_each(|x| {
                ok &= all.get(k + m) == Some(&x);
                m += 1;
            });
            o.check(T, ok && m == left, || format!("{what}: for_each() after {k} items sees {m} of {left}"));
            o.count("clone_points");
        }
        // partially consumed copies must not disturb the one they came from
        let mut side = cur.clone();
        side.next();
        side.next();
        drop(side);
        let x = cur.next();
        o.check(T, x.as_ref() == all.get(k), || format!("{what}: item {k}: {x:?}, expected {:?}", all.get(k)));
    }
}

fn nested(o: &mut Out, reg: &Region) {
    let h = mh::header(&reg.hb);
    clones(o, "conventional list", Capabilities::new(&reg.conv, &h));
    clones(o, "extended list", ExtendedCapabilities::new(&reg.ext));
    match &Header::from(reg.hb).header_type {
        HeaderType::Normal(n) => clones(o, "BARs", n.base_addresses.clone()),
        HeaderType::Bridge(n) => clones(o, "BARs", n.base_addresses.clone()),
        HeaderType::Cardbus(n) => clones(o, "BARs", n.base_addresses.clone()),
        _ => (),
    }
    for cap in Capabilities::new(&reg.conv, &h).take(CAP).flatten() {
        if let K::EnhancedAllocation(e) = &cap.kind {
            clones(o, "EA entries", e.entries.clone());
        }
    }
    for cap in ExtendedCapabilities::new(&reg.ext).take(CAP).flatten() {
        let copy = cap.clone();
        o.check(T, copy == cap, || format!("a copy of {cap:?} differs from it: {copy:?}"));
        match &cap.kind {
            E::VirtualChannel(v) | E::VirtualChannelMfvcPresent(v) => {
                clones(o, "VC arbitration table", v.vc_arbitration_table());
                for e in v.extended_virtual_channels().flatten().take(CAP) {
                    clones(o, "port arbitration table", v.port_arbitration_table(&e));
                }
                clones(o, "VC resources", v.extended_virtual_channels().map(|e| e.ok()));
            }
            E::MultifunctionVirtualChannel(v) => {
                if let Some(t) = &v.vc_arbitration_table {
                    clones(o, "VC arbitration table", t.clone());
                }
                clones(o, "MFVC resources", v.extended_virtual_channels.clone().map(|e| format!("{e:?}")));
                for e in v.extended_virtual_channels.clone().take(CAP) {
                    if let Some(t) = e.function_arbitration_table {
                        clones(o, "function arbitration table", t);
                    }
                }
            }
            E::RootComplexLinkDeclaration(v) => clones(o, "link entries", v.link_entries.clone()),
            E::AccessControlServices(v) => clones(o, "egress control vector", v.egress_control_vectors()),
            E::ResizableBar(v) | E::VfResizableBar(v) => clones(o, "resizable BARs", v.clone()),
            E::ProtocolMultiplexing(v) => clones(o, "PMUX protocols", v.pmux_protocol_array.clone()),
            E::SingleRootIoVirtualization(v) => clones(o, "VF BARs", v.base_addresses.clone()),
            _ => (),
        }
    }
}

fn agrees<I: Iterator>(mut it: I, exp: &[I::Item]) -> bool
where
    I::Item: PartialEq,
{
    exp.iter().all(|x| it.next().as_ref() == Some(x)) && (exp.len() == CAP || it.next().is_none())
}

/// Advance the lists of several regions in turn; each must go as it goes alone.
fn interleaved(o: &mut Out, regs: &[Region]) {
    let hs: Vec<Header> = regs.iter().map(|r| mh::header(&r.hb)).collect();
    let alone_c: Vec<Vec<_>> =
        regs.iter().zip(&hs).map(|(r, h)| Capabilities::new(&r.conv, h).take(CAP).collect()).collect();
    let alone_e: Vec<Vec<_>> = regs.iter().map(|r| ExtendedCapabilities::new(&r.ext).take(CAP).collect()).collect();
    let mut cs: Vec<_> = regs.iter().zip(&hs).map(|(r, h)| Capabilities::new(&r.conv, h)).collect();
    let mut es: Vec<_> = regs.iter().map(|r| ExtendedCapabilities::new(&r.ext)).collect();
    let longest = alone_c.iter().map(|v| v.len()).chain(alone_e.iter().map(|v| v.len())).max().unwrap_or(0);
    for k in 0..(longest + 1).min(CAP) {
        for i in 0..regs.len() {
            let x = cs[i].next();
            o.check(T, x.as_ref() == alone_c[i].get(k), || {
                format!("item {k} of list {i} with others advanced in between: {x:?}, alone {:?}", alone_c[i].get(k))
            });
            let x = es[i].next();
            o.check(T, x.as_ref() == alone_e[i].get(k), || {
                format!("item {k} of extended list {i} with others advanced in between: {x:?}, alone {:?}", alone_e[i].get(k))
            });
        }
    }
    o.add("interleaved_lists", 2 * regs.len() as u64);
}

// whether a type may be shared between threads, without refusing to compile when it may not
struct Probe<X>(PhantomData<X>);
#[allow(dead_code)]
trait No {
    const SHARED: bool = false;
}
impl<X> No for Probe<X> {}
impl<X: Send + Sync> Probe<X> {
    const SHARED: bool = true;
}

pub fn all(run: &mut Run) {
    run.rule = "hash of everything observable in a decoded configuration space (header, both lists, nested lists)".into();
    run.tasks(1, |_, out| {
        out.case("types", &[], &[], || "decoded values shared between threads".into(), |o| {
            for (what, ok) in [
                ("header", Probe::<Header>::SHARED),
                ("conventional list", Probe::<Capabilities<'static>>::SHARED),
                ("extended list", Probe::<ExtendedCapabilities<'static>>::SHARED),
                ("conventional structure", Probe::<pcics::capabilities::Capability<'static>>::SHARED),
                ("extended structure", Probe::<pcics::extended_capabilities::ExtendedCapability<'static>>::SHARED),
            ] {
                o.check(T, ok, || format!("{what} cannot be shared between threads"));
            }
        });
    });
    let (seed, n) = (run.seed, run.pick(8000, 150_000));
    run.tasks(n, |i, out| {
        let mut r = Rng::new(seed, 960_000 + i as u64, 1);
        let mut regs: Vec<Region> = (0..4).map(|_| Region::random(&mut r)).collect();
        for k in 0..3 {
            let sib = regs[k].sibling(&mut r);
            regs.push(sib);
        }
        let mut first = vec![];
        for reg in &regs {
            let mut v = [0; 3];
            let both = reg.both();
            out.case("region", &both, &reg.hb, || "decoded once".into(), |o| {
                let a = allocs();
                v = reg.seen();
                let b = allocs();
                o.check(T, a == b, || format!("decoding and formatting made {} heap allocations", b - a));
                o.note_distinct(v[0] ^ v[1].rotate_left(20) ^ v[2].rotate_left(40));
                o.count("allocations_watched");
            });
            if out.stopped() {
                return;
            }
            first.push(v);
        }
        // again, in another order, from copies at other addresses and alignments
        for round in 0..3 {
            for k in 0..regs.len() {
                let j = (k * [5, 3, 2][round] + round) % regs.len();
                let reg = &regs[j];
                let shift = r.below(9);
                let mut cb = vec![0xaa; shift];
                cb.extend(&reg.conv);
                cb.extend([0x55; 9]);
                let mut eb = vec![0x55; shift];
                eb.extend(&reg.ext);
                eb.extend([0xaa; 9]);
                let mut hbuf = vec![0x11; shift];
                hbuf.extend(reg.hb);
                let both = reg.both();
                out.case("region", &both, &reg.hb, || "decoded again from a copy".into(), |o| {
                    let h = mh::header(&reg.hb);
                    let v = [
                        seen_header(&hbuf[shift..]),
                        seen_conv(&cb[shift..shift + reg.conv.len()], &h),
                        seen_ext(&eb[shift..shift + reg.ext.len()]),
                    ];
                    for (what, (a, b)) in ["header", "conventional list", "extended list"].iter().zip(v.iter().zip(&first[j])) {
                        o.check(T, a == b, || format!("{what} decodes differently the second time"));
                    }
                    o.count("repeated_decodes");
                });
            }
        }
        for reg in &regs[..2] {
            let both = reg.both();
            out.case("region", &both, &reg.hb, || "copies of half-consumed lists".into(), |o| nested(o, reg));
        }
        let both = regs[0].both();
        out.case("region", &both, &regs[0].hb, || "with others advanced in between".into(), |o| interleaved(o, &regs[..4]));
        if i < 3 {
            out.sample(|| format!("region: header {} conventional {} bytes extended {} bytes", hex(&regs[0].hb), regs[0].conv.len(), regs[0].ext.len()));
        }
    });
    reused(run);
    // many threads over the same regions at once
    let batches = run.pick(200, 4000);
    for b in 0..batches {
        if run.violation.is_some() || run.start.elapsed() > run.deadline {
            break;
        }
        let mut r = Rng::new(seed, 970_000 + b as u64, 1);
        let regs: Vec<Region> = (0..32).map(|_| Region::random(&mut r)).collect();
        let mut out = Out::detached(T & run.mask());
        let mut alone = vec![];
        for reg in &regs {
            let both = reg.both();
            out.case("region", &both, &reg.hb, || "decoded alone".into(), |_| alone.push(reg.seen()));
        }
        // tight loops without formatting, so that many threads are inside the decoders at once
        if out.violation.is_none() {
            let hs: Vec<Header> = regs.iter().map(|r| mh::header(&r.hb)).collect();
            let conv: Vec<Vec<_>> =
                regs.iter().zip(&hs).map(|(r, h)| Capabilities::new(&r.conv, h).take(CAP).collect()).collect();
            let ext: Vec<Vec<_>> = regs.iter().map(|r| ExtendedCapabilities::new(&r.ext).take(CAP).collect()).collect();
            let (regs, hs, conv, ext, go) = (&regs, &hs, &conv, &ext, &std::sync::Barrier::new(8));
            let results: Vec<Result<Option<usize>, String>> = std::thread::scope(|s| {
                let ts: Vec<_> = (0..8usize)
                    .map(|t| {
                        s.spawn(move || {
                            go.wait();
                            guarded(|| {
                                for k in 0..8 * regs.len() {
                                    let j = (k * [1, 3, 5, 7, 9, 11, 13, 15][t] + t * 4) % regs.len();
                                    let same = agrees(Capabilities::new(&regs[j].conv, &hs[j]), &conv[j])
                                        && agrees(ExtendedCapabilities::new(&regs[j].ext), &ext[j]);
                                    if !same {
                                        return Some(j);
                                    }
                                }
                                None
                            })
                        })
                    })
                    .collect();
                ts.into_iter().map(|h| h.join().unwrap_or(Err("thread ended".into()))).collect()
            });
            for res in results {
                let j = res.as_ref().ok().and_then(|x| *x).unwrap_or(0);
                let both = regs[j].both();
                out.case("region", &both, &regs[j].hb, || "decoded by 8 threads at once".into(), |o| {
                    o.check(T, matches!(res, Ok(None)), || format!("decodes differently with other threads decoding ({res:?})"));
                    o.add("threaded_decodes", 8 * regs.len() as u64);
                });
            }
        }
        if out.violation.is_none() {
            let regs = &regs;
            let results: Vec<Result<Vec<(usize, [u64; 3])>, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..8usize)
                    .map(|t| {
                        s.spawn(move || {
                            guarded(|| {
                                let mut v = vec![];
                                for k in 0..2 * regs.len() {
                                    let j = (k * [1, 3, 5, 7, 9, 11, 13, 15][t] + t * 4) % regs.len();
                                    v.push((j, regs[j].seen()));
                                    if k % 5 == t % 5 {
                                        std::thread::yield_now();
                                    }
                                }
                                v
                            })
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(Err("thread ended".into()))).collect()
            });
            for res in results {
                match res {
                    Ok(v) => {
                        for (j, s) in v {
                            let both = regs[j].both();
                            out.case("region", &both, &regs[j].hb, || "decoded by 8 threads at once".into(), |o| {
                                o.check(T, s == alone[j], || "decodes differently with other threads decoding".into());
                                o.count("threaded_decodes");
                            });
                        }
                    }
                    Err(e) => {
                        let both = regs[0].both();
                        out.case("region", &both, &regs[0].hb, || "8 threads".into(), |o| {
                            o.miss(T, || format!("a thread failed: {e}"))
                        });
                    }
                }
            }
        }
        run.absorb(out);
    }
}

/// One buffer whose contents change between decodes: only what is there now counts.
fn reused(run: &mut Run) {
    use crate::work::*;
    let (seed, per) = (run.seed, run.pick(2000, 40_000));
    let mut targets = Target::of(&CONV_IDS, &EXT_IDS);
    targets.extend((0..4).map(Target::Head));
    let targets = &targets;
    run.tasks(targets.len(), |i, out| {
        let t = targets[i];
        let mut r = Rng::new(seed, 990_000 + i as u64, 1);
        for _ in 0..per {
            let n = match t {
                Target::Conv(id, _) => conv_body_len(&mut r, id),
                Target::Ext(id) => ext_body_len(&mut r, id),
                Target::Head(_) => 64,
            };
            let a = t.fix(&mut r, 4, Some(n));
            let b = t.fix(&mut r, 4, Some(n));
            let mut other = a.data[..a.off].to_vec();
            other.extend_from_slice(&b.data[b.off..]);
            if other.len() != a.data.len() {
                continue;
            }
            let h = mh::header(&a.hb);
            let look = |d: &[u8]| match t {
                Target::Conv(..) => seen_conv(d, &h),
                Target::Ext(_) => seen_ext(d),
                Target::Head(_) => seen_header(d),
            };
            out.case("reused", &a.data, &other, || format!("{t:?} and another one in the same buffer"), |o| {
                let (x, y) = (look(&a.data), look(&other));
                let mut buf = a.data.clone();
                let p = look(&buf);
                buf.copy_from_slice(&other);
                let q = look(&buf);
                buf.copy_from_slice(&a.data);
                let s = look(&buf);
                o.check(T, p == x && s == x && q == y, || "decodes what the buffer held before".into());
                o.count("reused_buffers");
            });
            // nearly the same structure again, after one and after another of its kind
            let (mut hb2, mut near) = (a.hb, a.data.clone());
            vary(&mut r, &mut hb2, &mut near);
            let h2 = mh::header(&hb2);
            let third = t.fix(&mut r, 4, Some(n));
            let h3 = mh::header(&third.hb);
            let look = |d: &[u8], h: &Header| match t {
                Target::Conv(..) => seen_conv(d, h),
                Target::Ext(_) => seen_ext(d),
                Target::Head(_) => seen_header(d),
            };
            out.case("reused", &near, &hb2, || format!("{t:?} after different ones of its kind"), |o| {
                let x = look(&third.data, &h3);
                let p = look(&near, &h2);
                let y = look(&a.data, &h);
                let q = look(&near, &h2);
                let again = [look(&third.data, &h3), look(&near, &h2), look(&a.data, &h)];
                o.check(T, q == p && again == [x, p, y], || "decodes differently after another structure".into());
                o.count("alternations");
            });
            if out.stopped() {
                return;
            }
        }
    });
}

/// A few regions decoded by two threads at once and through clones: for interpreters.
pub fn small(run: &mut Run, n: usize) {
    let seed = run.seed;
    run.tasks(n, |i, out| {
        let mut r = Rng::new(seed, 980_000 + i as u64, 1);
        let reg = Region::random(&mut r);
        let both = reg.both();
        out.case("region", &both, &reg.hb, || "decoded by two threads".into(), |o| {
            let a = reg.seen();
            let (b, c) = std::thread::scope(|s| {
                let h = s.spawn(|| reg.seen());
                let c = reg.seen();
                (h.join().unwrap_or([0; 3]), c)
            });
            o.check(T, a == b && a == c, || "decodes differently with another thread decoding".into());
            if i % 4 == 0 {
                nested(o, &reg);
            }
            o.count("threaded_decodes");
        });
    });
}
