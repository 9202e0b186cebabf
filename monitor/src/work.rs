//! Running the judge over generated inputs.
use crate::engine::*;
use crate::gen::*;
use crate::{judge, model};
use pcics::header::Header;

pub fn conv_case(out: &mut Out, data: &[u8], hb: &[u8; 64]) {
    let h: Header = model::header::header(hb);
    out.case("conv", data, hb, String::new, |o| judge::conv(o, data, &h));
}
pub fn ext_case(out: &mut Out, data: &[u8]) {
    out.case("ext", data, &[], String::new, |o| judge::ext(o, data));
}
pub fn header_case(out: &mut Out, hb: &[u8; 64]) {
    out.case("header", hb, &[], String::new, |o| judge::header(o, hb));
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Target {
    Conv(u8, Hk),
    Ext(u16),
    /// header with this layout number
    Head(u8),
}

/// One structure inside a region (or a whole header), with the bytes a workload may vary.
pub struct Fix {
    pub t: Target,
    pub data: Vec<u8>,
    pub hb: [u8; 64],
    /// first byte of the structure's registers, and how many are of interest
    pub off: usize,
    pub len: usize,
}

/// An aligned location somebody wrote down, or any when there is none.
fn near(r: &mut Rng, lo: usize, hi: usize) -> u16 {
    let v = r.pick(novel()) as usize;
    let v = match r.below(3) {
        0 => v,
        1 => v + 4,
        _ => v.saturating_sub(4),
    } & !3;
    let any = lo + 4 * r.below((hi - lo) / 4 + 1);
    (if (lo..=hi).contains(&v) { v } else { any }) as u16
}

impl Target {
    pub fn span(self) -> usize {
        match self {
            Target::Conv(id, _) => conv_len(id),
            Target::Ext(id) => ext_len(id) - 4,
            Target::Head(_) => 64,
        }
    }
    pub fn of(conv: &[u8], ext: &[u16]) -> Vec<Target> {
        let mut v = vec![];
        for &id in conv {
            let hks: &[Hk] = match id {
                0x07 | 0x14 => &[Hk::Normal, Hk::Bridge, Hk::Cardbus],
                0x09 => &[Hk::Normal, Hk::Virtio],
                _ => &[Hk::Normal],
            };
            v.extend(hks.iter().map(|h| Target::Conv(id, *h)));
        }
        v.extend(ext.iter().map(|&id| Target::Ext(id)));
        v
    }
    /// Structure over background `bg`: 0 zeros, 1 ones, 2 shaped zeros, 3 shaped ones, else anything.
    pub fn fix(self, r: &mut Rng, bg: usize, body_len: Option<usize>) -> Fix {
        let fill = |r: &mut Rng, n: usize| match bg {
            0 | 2 => vec![0; n],
            1 | 3 => vec![0xff; n],
            _ => background(r, n),
        };
        let shaped = bg > 1 && (bg < 4 || !r.one_in(4));
        match self {
            Target::Conv(id, hk) => {
                let n = body_len.unwrap_or_else(|| conv_len(id) + if bg < 4 { 64 } else { r.below(90) });
                let mut b = fill(r, n);
                if shaped {
                    shape_conv(r, id, &mut b, hk == Hk::Bridge);
                }
                if bg > 3 && !novel().is_empty() && r.one_in(2) {
                    sprinkle(r, &mut b);
                }
                let mut pos = 0x40 + 4 * r.below(12) as u8;
                if !novel().is_empty() && r.one_in(4) {
                    pos = near(r, 0x40, 0xfc) as u8;
                }
                // most structures do not depend on the header's layout
                let hk = match id {
                    0x07 | 0x09 | 0x14 => hk,
                    _ => r.pick(&[Hk::Normal, Hk::Normal, Hk::Bridge, Hk::Cardbus]),
                };
                let hb = header_bytes(r, hk, pos);
                let data = conv_place(r, id, 0, pos, &b);
                Fix { t: self, data, hb, off: pos as usize - 0x40 + 2, len: conv_len(id).min(n) }
            }
            Target::Ext(id) => {
                // now and then room for the largest tables, up to the end of extended space
                let extra = match r.below(32) {
                    0 => 3400,
                    1..=7 => 400,
                    _ if matches!(id, 2 | 8 | 9) => 400,
                    _ => 80,
                };
                let n = body_len.unwrap_or_else(|| ext_len(id) + if bg < 4 { extra } else { r.below(extra) });
                let mut b = fill(r, n.max(4));
                if shaped {
                    shape_ext(r, id, &mut b);
                }
                if bg > 3 && !novel().is_empty() && r.one_in(2) {
                    sprinkle(r, &mut b);
                }
                let pos = if !novel().is_empty() && r.one_in(4) {
                    near(r, 0x104, 0xffc)
                } else if r.one_in(3) { 0x100 } else { 0x104 + 4 * r.below(20) as u16 };
                let v = r.below(16) as u8;
                let v = if id == 0 && v == 0 { 1 } else { v };
                let data = ext_place(r, id, v, 0, pos, &b);
                let off = pos as usize - 0x100 + 4;
                let len = (ext_len(id) - 4).min(data.len() - off);
                Fix { t: self, data, hb: [0; 64], off, len }
            }
            Target::Head(ty) => {
                let mut b = fill(r, 64);
                b[0xe] = b[0xe] & 0x80 | ty;
                let mut hb = [0; 64];
                hb.copy_from_slice(&b);
                Fix { t: self, data: b, hb, off: 0, len: 64 }
            }
        }
    }
}

impl Fix {
    /// Let the list go on from this structure: into its own registers, behind it, or anywhere.
    pub fn link_on(&mut self, r: &mut Rng) {
        match self.t {
            Target::Conv(..) => {
                let pos = self.off - 2 + 0x40;
                let next = if r.one_in(3) { r.byte() } else { (pos + 4 * r.below(24)) as u8 };
                self.data[self.off - 1] = next;
            }
            Target::Ext(_) => {
                let pos = self.off - 4 + 0x100;
                let next = match r.below(3) {
                    0 => r.below(4096),
                    1 => pos + 4 * r.below(24),
                    _ => pos + 4 * r.below(self.data.len() / 4 + 8),
                } as u16;
                let o = self.off - 4;
                self.data[o + 2] = self.data[o + 2] & 0xf | (next << 4) as u8;
                self.data[o + 3] = (next >> 4) as u8;
            }
            Target::Head(_) => (),
        }
    }
    pub fn run(&mut self, out: &mut Out) {
        match self.t {
            Target::Conv(..) => conv_case(out, &self.data, &self.hb),
            Target::Ext(_) => ext_case(out, &self.data),
            Target::Head(_) => {
                self.hb.copy_from_slice(&self.data[..64]);
                header_case(out, &self.hb)
            }
        }
    }
    /// Run on every shorter region.
    pub fn run_prefixes(&mut self, out: &mut Out, step: usize) {
        let full = self.data.clone();
        let start = self.off.saturating_sub(4);
        let mut n = start;
        while n <= full.len() && !out.stopped() {
            self.data.truncate(0);
            self.data.extend_from_slice(&full[..n]);
            self.run(out);
            n += step;
        }
        self.data = full;
    }
}

/// How much of each pattern family to run.
#[derive(Clone, Copy)]
pub struct Dose {
    pub bit_bgs: usize,
    pub byte_bgs: usize,
    pub word_bgs: usize,
    pub dict_bgs: usize,
    pub trunc: usize,
    pub random: usize,
}

enum Job {
    Bits(Target, usize),
    Bytes(Target, usize),
    Words(Target, usize, usize),
    Dict(Target, usize),
    Trunc(Target),
    Random(Target),
    Huge(Target),
}

/// Pattern families over single structures.
pub fn patterns(run: &mut Run, targets: &[Target], d: Dose) {
    let mut jobs = vec![];
    for &t in targets {
        for b in 0..d.bit_bgs {
            jobs.push(Job::Bits(t, b));
        }
        for b in 0..d.byte_bgs {
            jobs.push(Job::Bytes(t, b));
        }
        for b in 0..d.word_bgs {
            for w in 0..t.span() / 2 {
                jobs.push(Job::Words(t, b, w * 2));
            }
        }
        for b in 0..d.dict_bgs {
            jobs.push(Job::Dict(t, b));
        }
        if !matches!(t, Target::Head(_)) {
            for _ in 0..d.trunc {
                jobs.push(Job::Trunc(t));
            }
        }
        if !matches!(t, Target::Head(_)) {
            for _ in 0..(d.trunc / 4).clamp(2, 100) {
                jobs.push(Job::Huge(t));
            }
        }
        for _ in 0..d.random.div_ceil(5000) {
            jobs.push(Job::Random(t));
        }
    }
    let (seed, jobs) = (run.seed, &jobs);
    run.tasks(jobs.len(), |i, out| {
        let mut r = Rng::new(seed, 100 + i as u64, 1);
        match jobs[i] {
            Job::Bits(t, bg) => {
                let mut f = t.fix(&mut r, bg, None);
                f.run(out);
                for k in 0..f.len * 8 {
                    let o = f.off + k / 8;
                    f.data[o] ^= 1 << (k % 8);
                    f.run(out);
                    f.data[o] ^= 1 << (k % 8);
                }
                out.add("bit_walks", f.len as u64 * 8);
            }
            Job::Bytes(t, bg) => {
                for k in 0..t.span() {
                    let mut f = t.fix(&mut r, if bg == 0 { 0 } else { bg + 1 }, None);
                    if k >= f.len {
                        continue;
                    }
                    for v in 0..=255u8 {
                        f.data[f.off + k] = v;
                        f.run(out);
                    }
                    out.add("byte_values", 256);
                }
            }
            Job::Words(t, bg, k) => {
                let b = if bg == 0 { 2 + r.below(2) } else { 4 };
                let mut f = t.fix(&mut r, b, None);
                if k + 2 > f.len {
                    return;
                }
                // every value, in an order that does not tie neighbouring values to one background
                let (mul, add) = (r.next() as u16 | 1, r.next() as u16);
                for i in 0..=0xffffu16 {
                    if out.stopped() {
                        return;
                    }
                    if i % 16 == 15 && (bg > 0 || i % 64 == 15) {
                        let f2 = t.fix(&mut r, 4, None);
                        if k + 2 <= f2.len {
                            f = f2;
                        }
                    }
                    let v = i.wrapping_mul(mul).wrapping_add(add);
                    f.data[f.off + k..f.off + k + 2].copy_from_slice(&v.to_le_bytes());
                    f.run(out);
                }
                out.add("word_values", 65536);
            }
            Job::Dict(t, bg) => {
                let mut f = t.fix(&mut r, 2 + bg, None);
                for &v in dictionary() {
                    if bg > 0 {
                        f = t.fix(&mut r, 4, None);
                    }
                    let w = if v > 0xffff { 4 } else if v > 0xff { 2 } else { 1 };
                    let mut k = 0;
                    while k + w <= f.len {
                        let at = f.off + k;
                        let mut old = [0; 4];
                        old[..w].copy_from_slice(&f.data[at..at + w]);
                        f.data[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
                        f.run(out);
                        f.data[at..at + w].copy_from_slice(&old[..w]);
                        k += w;
                    }
                    if out.stopped() {
                        return;
                    }
                }
                out.add("dictionary_values", dictionary().len() as u64);
            }
            Job::Trunc(t) => {
                let bg = 2 + r.below(6);
                let mut f = t.fix(&mut r, bg, None);
                if r.one_in(4) {
                    f.link_on(&mut r);
                }
                f.run_prefixes(out, 1);
                out.add("cut_series", 1);
            }
            Job::Random(t) => {
                for _ in 0..5000 {
                    let n = match t {
                        Target::Conv(id, _) => conv_body_len(&mut r, id),
                        Target::Ext(id) => ext_body_len(&mut r, id),
                        Target::Head(_) => 64,
                    };
                    let mut f = t.fix(&mut r, 4, Some(n));
                    if r.one_in(5) {
                        f.link_on(&mut r);
                    }
                    f.run(out);
                }
                out.add("random_bodies", 5000);
            }
            Job::Huge(t) => {
                // more bytes than configuration space has: lengths, counts and offsets at their limits
                for _ in 0..100 {
                    let n = match t {
                        Target::Conv(..) => 150 + r.below(450),
                        _ => 3500 + r.below(5000),
                    };
                    let mut f = t.fix(&mut r, 4, Some(n));
                    if r.one_in(2) {
                        f.data[f.off + r.below(f.len.min(16))] = 0xff - r.below(4) as u8;
                    }
                    f.run(out);
                }
                out.add("oversized_regions", 100);
            }
        }
        if i < 40 {
            let mut f = match jobs[i] {
                Job::Bits(t, _) | Job::Bytes(t, _) | Job::Words(t, _, _) | Job::Dict(t, _) | Job::Trunc(t) | Job::Random(t) | Job::Huge(t) => {
                    t.fix(&mut r, 4, None)
                }
            };
            f.run(out);
            out.sample(|| format!("{:?} with {} bytes from its registers on: {}", f.t, f.data.len() - f.off, hex(&f.data[f.off..(f.off + 24).min(f.data.len())])));
        }
    });
}

/// Whole regions with chains.
pub fn conv_chains(run: &mut Run, n: usize) {
    let seed = run.seed;
    run.tasks(n.div_ceil(2000), |i, out| {
        let mut r = Rng::new(seed, 200_000 + i as u64, 2);
        for _ in 0..2000 {
            let hk = r.pick(&HKS);
            let (start, data) = conv_space(&mut r, hk == Hk::Bridge);
            let hb = header_bytes(&mut r, hk, start);
            conv_case(out, &data, &hb);
            if hk == Hk::Reserved {
                continue;
            }
            let n = judge::ref_conv(&data, start).len();
            out.count(match n {
                0 => "lists_empty",
                1..=3 => "lists_1_to_3",
                4..=15 => "lists_4_to_15",
                _ => "lists_16_up",
            });
            out.sample(|| format!("list from {start:02x}h in {} bytes: {:?}", data.len(), judge::ref_conv(&data, start)));
        }
    });
}
pub fn ext_chains(run: &mut Run, n: usize) {
    let seed = run.seed;
    run.tasks(n.div_ceil(500), |i, out| {
        let mut r = Rng::new(seed, 300_000 + i as u64, 3);
        for _ in 0..500 {
            let data = ext_space(&mut r);
            ext_case(out, &data);
            let n = judge::ref_ext(&data).len();
            out.count(match n {
                0 => "ext_lists_empty",
                1..=3 => "ext_lists_1_to_3",
                4..=31 => "ext_lists_4_to_31",
                _ => "ext_lists_32_up",
            });
            out.sample(|| {
                let mut s = format!("{:?}", judge::ref_ext(&data));
                s.truncate(300);
                format!("extended list in {} bytes: {s}", data.len())
            });
        }
    });
}

/// Every start pointer, every next pointer, every id, every region length.
pub fn conv_links(run: &mut Run) {
    let seed = run.seed;
    let rounds = run.pick(2, 12);
    run.tasks(256 * rounds, |i, out| {
        let mut r = Rng::new(seed, 400_000 + i as u64, 4);
        let v = (i % 256) as u8;
        // start pointer v, over regions of different length and content
        for hk in HKS {
            for _ in 0..4 {
                let (_, data) = conv_space(&mut r, hk == Hk::Bridge);
                let hb = header_bytes(&mut r, hk, v);
                conv_case(out, &data, &hb);
            }
        }
        // next pointer v / id v, at every position
        for s in 0..48u8 {
            let pos = 0x40 + 4 * s;
            let hk = r.pick(&[Hk::Normal, Hk::Bridge, Hk::Cardbus]);
            let (_, mut data) = conv_space(&mut r, hk == Hk::Bridge);
            data.resize(192, 0);
            data[pos as usize - 0x40 + 1] = v;
            let hb = header_bytes(&mut r, hk, pos);
            conv_case(out, &data, &hb);
            data[pos as usize - 0x40] = v;
            data[pos as usize - 0x40 + 1] = r.pick(&[0, 0x40, 0x80, 0xfc]);
            conv_case(out, &data, &hb);
        }
        // region of v bytes (and up to 255 more)
        let mut data = vec![0; v as usize];
        r.fill(&mut data);
        for start in [0x40u8, 0x44, 0x80, v & 0xfc, v.wrapping_add(0x40) & 0xfc, v.wrapping_add(0x3c) & 0xfc] {
            let hb = header_bytes(&mut r, Hk::Normal, start);
            conv_case(out, &data, &hb);
        }
        out.add("link_values", 1);
    });
}
pub fn ext_links(run: &mut Run) {
    let seed = run.seed;
    let rounds = run.pick(1, 6);
    run.tasks(4096 * rounds, |i, out| {
        let mut r = Rng::new(seed, 500_000 + i as u64, 5);
        let v = (i % 4096) as u16;
        // next pointer v from 100h and from elsewhere
        for _ in 0..2 {
            let mut data = ext_space(&mut r);
            data.resize(0xf00, 0);
            ext_head(&mut data, 0, r.pick(&EXT_IDS), r.below(16) as u8, v);
            ext_case(out, &data);
            let q = 0x104 + 4 * r.below(959) as u16;
            ext_head(&mut data, 0, 0x77, 1, q);
            ext_head(&mut data, q as usize - 0x100, r.pick(&EXT_IDS), r.below(16) as u8, v);
            ext_case(out, &data);
        }
        // sixteen ids per task cover the 16-bit space
        let mut data = vec![0; 0x100];
        r.fill(&mut data);
        for k in 0..16u16 {
            ext_head(&mut data, 0, v << 4 | k, k as u8, 0);
            ext_case(out, &data);
            ext_head(&mut data, 0, 0x77, 1, 0x140);
            ext_head(&mut data, 0x40, v << 4 | k, r.below(16) as u8, 0);
            ext_case(out, &data);
        }
        // region of v bytes
        let mut data = vec![0; v as usize];
        r.fill(&mut data);
        for next in [0x100 + v, 0xfe + v, 0xfc + v, 0xf8 + v] {
            if v >= 4 {
                ext_head(&mut data, 0, 0x77, 1, (next & 0xffc).min(0xffc));
            }
            ext_case(out, &data);
        }
        out.add("ext_link_values", 1);
    });
}

/// The longest possible lists, in both orders and shuffled, with every id.
pub fn longest(run: &mut Run, n: usize) {
    let seed = run.seed;
    run.tasks(n, |i, out| {
        let mut r = Rng::new(seed, 600_000 + i as u64, 6);
        let order = |r: &mut Rng, n: usize| {
            let mut v: Vec<usize> = (0..n).collect();
            match i % 3 {
                0 => (),
                1 => v[1..].reverse(),
                _ => {
                    for k in (2..n).rev() {
                        let j = 1 + r.below(k);
                        v.swap(k, j);
                    }
                }
            }
            v
        };
        let close = i % 4;
        // conventional: 48 structures of four bytes
        let o = order(&mut r, 48);
        let mut data = background(&mut r, 192);
        for (k, &s) in o.iter().enumerate() {
            data[4 * s] = if r.one_in(2) { r.byte() } else { r.pick(&CONV_IDS) };
            data[4 * s + 1] = match o.get(k + 1) {
                Some(&q) => 0x40 + 4 * q as u8,
                None => [0, 0x40, 0x40 + 4 * o[r.below(48)] as u8, 0x40 + 4 * s as u8][close],
            };
        }
        let hb = header_bytes(&mut r, Hk::Normal, 0x40 + 4 * o[0] as u8);
        conv_case(out, &data, &hb);
        out.count("longest_lists");
        // extended: 960 structures of four bytes
        let o = order(&mut r, 960);
        let mut data = vec![0; 3840];
        for (k, &s) in o.iter().enumerate() {
            let next = match o.get(k + 1) {
                Some(&q) => 0x100 + 4 * q as u16,
                None => [0, 0x100, 0x100 + 4 * o[r.below(960)] as u16, 0x100 + 4 * s as u16][close],
            };
            let id = if r.one_in(2) { r.below(0x40) as u16 } else { r.pick(&EXT_IDS) };
            ext_head(&mut data, 4 * s, id, 1 + r.below(15) as u8, next);
        }
        ext_case(out, &data);
        out.count("longest_ext_lists");
    });
}

pub fn real_dumps(run: &mut Run) {
    let dumps = dumps();
    let d = &dumps;
    run.tasks(dumps.len(), |i, out| {
        let (name, bytes) = &d[i];
        if bytes.len() < 0x100 {
            return;
        }
        let mut hb = [0; 64];
        hb.copy_from_slice(&bytes[..64]);
        header_case(out, &hb);
        conv_case(out, &bytes[0x40..0x100], &hb);
        ext_case(out, &bytes[0x100..]);
        // single-bit corruptions of a real device
        let mut b = bytes[0x40..0x100].to_vec();
        for k in 0..b.len() * 8 {
            b[k / 8] ^= 1 << (k % 8);
            conv_case(out, &b, &hb);
            b[k / 8] ^= 1 << (k % 8);
        }
        let mut b = bytes[0x100..].to_vec();
        for k in 0..b.len() * 8 {
            b[k / 8] ^= 1 << (k % 8);
            ext_case(out, &b);
            b[k / 8] ^= 1 << (k % 8);
        }
        out.count("real_dumps");
        out.sample(|| format!("repository dump {name} and its single-bit corruptions"));
    });
}
