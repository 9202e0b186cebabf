//! Workloads: register patterns, structure bodies, configuration spaces.
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    /// Independent stream for (seed, a, b).
    pub fn new(seed: u64, a: u64, b: u64) -> Self {
        let mut r = Rng(
            seed.wrapping_mul(0x9e3779b97f4a7c15) ^ a.wrapping_mul(0xbf58476d1ce4e5b9),
            b.wrapping_mul(0x94d049bb133111eb) ^ 0x2545f4914f6cdd1d,
        );
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0 ^ self.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        self.1 = self.1.rotate_left(17).wrapping_add(z);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) as usize * n) >> 32
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 40) as u8
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

/// Integer literals of every source file under test (name relative to the sources), line by line.
fn literals() -> &'static [(String, Vec<Vec<u32>>)] {
    static D: OnceLock<Vec<(String, Vec<Vec<u32>>)>> = OnceLock::new();
    D.get_or_init(|| {
        fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
            let Ok(rd) = std::fs::read_dir(p) else { return };
            let mut e: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            e.sort();
            for p in e {
                if p.is_dir() {
                    walk(&p, out)
                } else if p.extension().is_some_and(|x| x == "rs") {
                    out.push(p)
                }
            }
        }
        let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        let root = std::path::Path::new(&root).join("src");
        let mut files = vec![];
        walk(&root, &mut files);
        let mut all = vec![];
        for f in files {
            let mut lines = vec![];
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            // tests at the end of a file carry whole dumps; their bytes are of no special interest
            let t = t.split("#[cfg(test)]").next().unwrap_or("");
            for line in t.lines() {
                let line = line.trim_start();
                if line.starts_with("//") {
                    continue;
                }
                let mut found = vec![];
                let b = line.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                        let s = i;
                        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                            i += 1;
                        }
                        let mut w: String = line[s..i].replace('_', "");
                        for suf in ["usize", "u8", "u16", "u32", "u64", "i32"] {
                            if let Some(x) = w.strip_suffix(suf) {
                                w = x.to_string();
                                break;
                            }
                        }
                        let v = if let Some(x) = w.strip_prefix("0x") {
                            u64::from_str_radix(x, 16)
                        } else if let Some(x) = w.strip_prefix("0b") {
                            u64::from_str_radix(x, 2)
                        } else if let Some(x) = w.strip_prefix("0o") {
                            u64::from_str_radix(x, 8)
                        } else {
                            w.parse()
                        };
                        if let Ok(v) = v {
                            if v <= u32::MAX as u64 {
                                found.push(v as u32);
                            }
                        }
                    } else {
                        i += 1;
                    }
                }
                if !found.is_empty() {
                    lines.push(found);
                }
            }
            let name = f.strip_prefix(&root).unwrap_or(&f).display().to_string();
            all.push((name, lines));
        }
        all
    })
}

/// The special values worth feeding back.
pub fn dictionary() -> &'static [u32] {
    static D: OnceLock<Vec<u32>> = OnceLock::new();
    D.get_or_init(|| {
        let set: std::collections::BTreeSet<u32> = literals().iter().flat_map(|f| f.1.iter().flatten().copied()).collect();
        let mut v: Vec<u32> = set.into_iter().collect();
        if v.len() > 4000 {
            v.truncate(4000);
        }
        for x in [0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
            if !v.contains(&x) {
                v.push(x)
            }
        }
        v
    })
}

/// One line per source file with its literals: what `literals.txt` was made from.
pub fn literal_lines() -> String {
    let mut s = String::new();
    for (f, v) in literals() {
        s += f;
        for x in v.iter().flatten().collect::<std::collections::BTreeSet<_>>() {
            s += &format!(" {x:x}");
        }
        s.push('\n');
    }
    s
}

/// Literals a source file did not have when the monitors were written. Values somebody added are
/// where behaviour may have changed, so inputs made of them, alone and together, get extra weight.
/// (They only choose inputs; what is right is judged the same way for all of them.)
pub fn novel() -> &'static [u32] {
    &novelty().0
}
/// The novel values, and all values of the lines they stand in, in order.
fn novelty() -> &'static (Vec<u32>, Vec<Vec<u32>>) {
    static D: OnceLock<(Vec<u32>, Vec<Vec<u32>>)> = OnceLock::new();
    D.get_or_init(|| {
        let known: std::collections::BTreeMap<&str, Vec<u32>> = include_str!("../literals.txt")
            .lines()
            .filter_map(|l| {
                let mut w = l.split(' ');
                Some((w.next()?, w.filter_map(|x| u32::from_str_radix(x, 16).ok()).collect()))
            })
            .collect();
        let mut set = std::collections::BTreeSet::new();
        let mut lines = vec![];
        for (f, v) in literals() {
            // a file that is new altogether is code that moved
            let Some(k) = known.get(f.as_str()) else { continue };
            for l in v {
                let new: Vec<u32> = l.iter().copied().filter(|x| *x > 1 && !k.contains(x)).collect();
                if !new.is_empty() {
                    set.extend(new);
                    lines.push(l.clone());
                }
            }
        }
        let v: Vec<u32> = set.into_iter().collect();
        if v.len() > 60 {
            return Default::default();
        }
        (v, lines)
    })
}

/// Put novel values somewhere in `b`, as they are or shifted, often several side by side.
pub fn sprinkle(r: &mut Rng, b: &mut [u8]) {
    let d = novel();
    if d.is_empty() || b.is_empty() {
        return;
    }
    let mut at = r.below(b.len());
    if r.one_in(4) {
        // a run of values as written
        let l = &novelty().1[r.below(novelty().1.len())];
        let i = r.below(l.len());
        let n = 1 + r.below(l.len() - i);
        for v in &l[i..i + n] {
            let w = if *v > 0xffff { 4 } else if *v > 0xff { 2 } else { 1 };
            for x in &v.to_le_bytes()[..w] {
                if at < b.len() {
                    b[at] = *x;
                }
                at += 1;
            }
        }
        at = r.below(b.len());
    }
    for _ in 0..1 + r.below(4) {
        let v = if r.one_in(6) {
            let l = &novelty().1[r.below(novelty().1.len())];
            r.pick(l)
        } else {
            r.pick(d)
        };
        let v = match r.below(8) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => v << r.below(32),
            _ => v,
        };
        let w = match r.below(4) {
            0 => 4,
            1 => 2,
            _ if v > 0xffff => 4,
            _ if v > 0xff => 2,
            _ => 1,
        };
        let le = v.to_le_bytes();
        let keep = r.one_in(4);
        for i in 0..w.min(b.len().saturating_sub(at)) {
            b[at + i] = if keep { b[at + i] | le[i] } else { le[i] };
        }
        at = if r.one_in(2) { at + w } else { r.below(b.len()) };
        if r.one_in(2) {
            at &= !(w - 1);
        }
        if at >= b.len() {
            at = r.below(b.len());
        }
    }
}

/// Background pattern of `n` bytes.
pub fn background(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    match r.below(12) {
        0 => (),
        1 => b.fill(0xff),
        5 | 6 => {
            // registers of different character side by side
            let d = dictionary();
            for c in b.chunks_mut(4) {
                let v: u32 = match r.below(8) {
                    0 | 1 => 0,
                    2 => u32::MAX,
                    3 => r.below(16) as u32,
                    4 => r.pick(d),
                    5 => 1 << r.below(32),
                    6 => r.byte() as u32 * 0x0101_0101,
                    _ => r.next() as u32,
                };
                c.copy_from_slice(&v.to_le_bytes()[..c.len()]);
            }
        }
        2 => {
            // sparse: a few bits set
            for _ in 0..1 + r.below(6) {
                if n > 0 {
                    let i = r.below(n);
                    b[i] |= 1 << r.below(8);
                }
            }
        }
        3 => {
            b.fill(0xff);
            for _ in 0..1 + r.below(6) {
                if n > 0 {
                    let i = r.below(n);
                    b[i] &= !(1 << r.below(8));
                }
            }
        }
        7 => {
            // registers in relation to each other: equal, next to, opposite
            let w = r.pick(&[1usize, 2, 2, 4, 4]);
            let base: Vec<u32> = (0..1 + r.below(3)).map(|_| if r.one_in(3) { r.pick(dictionary()) } else { r.next() as u32 }).collect();
            let odd = r.pick(&[3, 8, 1000]);
            for c in b.chunks_mut(w) {
                let v = r.pick(&base);
                let v = if !r.one_in(odd) {
                    v
                } else {
                    match r.below(6) {
                        0 => v.wrapping_add(1),
                        1 => v.wrapping_sub(1),
                        2 => !v,
                        3 => v.swap_bytes(),
                        4 => v ^ 1 << r.below(8 * w),
                        _ => r.next() as u32,
                    }
                };
                c.copy_from_slice(&v.to_le_bytes()[..c.len()]);
            }
        }
        4 => {
            // special values
            let d = dictionary();
            for c in b.chunks_mut(4) {
                let v = r.pick(d).to_le_bytes();
                c.copy_from_slice(&v[..c.len()]);
            }
        }
        _ => r.fill(&mut b),
    }
    if !novel().is_empty() && r.one_in(2) {
        sprinkle(r, &mut b);
    }
    b
}

fn put16(b: &mut [u8], o: usize, v: u16) {
    if o + 2 <= b.len() {
        b[o..o + 2].copy_from_slice(&v.to_le_bytes());
    }
}
fn get16(b: &[u8], o: usize) -> u16 {
    if o + 2 <= b.len() {
        b[o] as u16 | (b[o + 1] as u16) << 8
    } else {
        0
    }
}
fn bits(b: &mut [u8], o: usize, mask: u8, v: u8) {
    if o < b.len() {
        b[o] = b[o] & !mask | v & mask;
    }
}

pub const CONV_IDS: [u8; 16] =
    [0x01, 0x02, 0x03, 0x04, 0x05, 0x07, 0x08, 0x09, 0x0a, 0x0d, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15];
pub const EXT_IDS: [u16; 34] = [
    0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x12, 0x13,
    0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24,
];

/// Bytes after the two-byte list header that carry registers worth sweeping.
pub fn conv_len(id: u8) -> usize {
    match id {
        0x01 => 6,
        0x02 => 32,
        0x03 => 6,
        0x04 => 2,
        0x05 => 22,
        0x07 => 26,
        0x08 => 26,
        0x09 => 18,
        0x0a => 2,
        0x0d => 6,
        0x10 => 58,
        0x11 => 10,
        0x12 => 6,
        0x13 => 4,
        0x14 => 46,
        0x15 => 34,
        _ => 6,
    }
}
/// The same for extended structures, counting their own four-byte header.
pub fn ext_len(id: u16) -> usize {
    match id {
        0x01 => 0x48,
        0x02 | 0x09 => 0x34,
        0x08 => 0x34,
        0x03 => 0xc,
        0x04 => 0x10,
        0x05 => 0x30,
        0x06 => 0xc,
        0x07 => 0xc,
        0x0a => 0x14,
        0x0b => 0x10,
        0x0c => 8,
        0x0d => 0x10,
        0x0e | 0x0f => 8,
        0x10 => 0x40,
        0x12 => 0x30,
        0x13 => 0x10,
        0x15 | 0x24 => 0x1c,
        0x16 => 0x18,
        0x17 => 0x10,
        0x18 => 8,
        0x19 => 0x14,
        0x1a => 0x20,
        0x1b | 0x1c => 8,
        0x1d => 0x40,
        0x1e => 0x10,
        0x1f => 0xc,
        0x20 => 0x2c,
        0x21 => 0x14,
        0x22 => 0xc,
        0x23 => 0x38,
        _ => 0x10,
    }
}

/// Give the selector fields of a conventional structure values that make the rest meaningful.
pub fn shape_conv(r: &mut Rng, id: u8, b: &mut [u8], bridge: bool) {
    if b.is_empty() {
        return;
    }
    match id {
        0x05 => {
            bits(b, 0, 0x80, r.byte());
            bits(b, 1, 1, r.byte());
        }
        0x08 => {
            let t = r.pick(&[0x00, 0x20, 0x40, 0x80, 0x88, 0x90, 0x98, 0xa0, 0xa8, 0xb0, 0xb8, 0xc0, 0xc8, 0xd0, 0xd8]);
            bits(b, 1, if t < 0x60 { 0xe0 } else { 0xf8 }, t);
        }
        0x09 => {
            b[0] = match r.below(6) {
                0 => r.byte(),
                1 => 16,
                2 => 20,
                3 => (b.len() + 2).min(255) as u8,
                4 => (b.len() + r.below(5)).min(255) as u8,
                _ => r.below(24) as u8,
            };
            if b.len() > 1 && !r.one_in(4) {
                b[1] = r.below(10) as u8;
            }
        }
        0x10 => {
            let v = r.pick(&[0u8, 1, 1, 2, 2, 2, 2, 3, 15]);
            b[0] = (r.below(16) as u8) << 4 | v;
        }
        0x14 => {
            let mut at = if bridge { 6 } else { 2 };
            let n = r.below(8);
            bits(b, 0, 0x3f, n as u8);
            for _ in 0..n {
                let b64 = r.one_in(2);
                let m64 = r.one_in(2);
                bits(b, at + 4, 2, if b64 { 2 } else { 0 });
                bits(b, at + 8, 2, if m64 { 2 } else { 0 });
                let es = if r.one_in(6) { r.below(8) } else { 2 + b64 as usize + m64 as usize };
                bits(b, at, 7, es as u8);
                if r.one_in(2) && at + 1 < b.len() {
                    b[at + 1] = r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 0xfc, 0xfd, 0xfe, 0xff]);
                }
                if r.one_in(2) && at + 2 < b.len() {
                    b[at + 2] = r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 0xfc, 0xfd, 0xfe, 0xff]);
                }
                at += if cfg!(feature = "ea_real") {
                    12 + 4 * (b64 as usize + m64 as usize)
                } else {
                    4 * (es + 1)
                };
            }
        }
        _ => (),
    }
}

/// The same for an extended structure; `b` starts at its header.
pub fn shape_ext(r: &mut Rng, id: u16, b: &mut [u8]) {
    let n = b.len();
    match id {
        0x02 | 0x09 | 0x08 => {
            bits(b, 4, 7, if r.one_in(2) { r.below(3) as u8 } else { r.byte() });
            if r.one_in(2) {
                bits(b, 4, 0x70, r.byte() & 0x70);
            }
            bits(b, 5, 0x0c, r.byte());
            let off = |r: &mut Rng| match r.below(6) {
                0 => 0u8,
                1 => r.byte(),
                _ => r.below((n / 16).max(1) + 2) as u8,
            };
            if n > 11 {
                b[11] = off(r);
            }
            bits(b, 0xc, 0xe, (r.below(8) as u8) << 1);
            let mut o = 0x10;
            while o + 12 <= n && o < 0x10 + 96 {
                b[o + 3] = off(r);
                bits(b, o + 6, 0xe, (r.below(8) as u8) << 1);
                if r.one_in(2) {
                    bits(b, o + 6, 0xe, r.pick(&[2, 4, 6, 8, 10]));
                }
                o += 12;
            }
        }
        0x05 => {
            if n > 5 && !r.one_in(6) {
                b[5] = r.below(n / 16 + 2) as u8;
            }
        }
        0x07 => {
            bits(b, 2, 0xf, r.pick(&[0, 1, 2, 3, 15]));
        }
        0x0b => {
            let len = match r.below(4) {
                0 => r.below(4096),
                1 => r.below(16),
                _ => r.below(n + 3),
            } as u16;
            let v = get16(b, 6) & 0xf;
            put16(b, 6, v | len << 4);
        }
        0x0d => {
            if n > 5 && !r.one_in(3) {
                b[5] = match r.below(4) {
                    0 => 0,
                    1 => r.below(40) as u8,
                    2 => r.pick(&[1, 31, 32, 33, 63, 64, 65, 127, 128, 255]),
                    _ => r.byte(),
                };
            }
            bits(b, 4, 0x20, if r.one_in(4) { 0 } else { 0x20 });
        }
        0x15 | 0x24 => bits(b, 8, 0xe0, (r.below(8) as u8) << 5),
        0x16 => bits(b, 4, 0x1f, if r.one_in(2) { r.below(32) as u8 } else { r.below(n.saturating_sub(0x10) + 2) as u8 }),
        0x17 => {
            if !r.one_in(3) {
                bits(b, 5, 6, 2);
            }
            let size = match r.below(3) {
                0 => r.pick(&[0u16, 1, 2, 30, 31, 32, 61, 62, 63, 64, 65, 66, 126, 127, 128, 255, 256, 2047]),
                1 => r.below((n / 2).max(1) + 2) as u16,
                _ => r.below(80) as u16,
            };
            let v = get16(b, 6);
            put16(b, 6, if r.one_in(6) { r.next() as u16 } else { v & 0xf800 | size & 0x7ff });
        }
        0x1a => bits(b, 4, 0x3f, if r.one_in(2) { r.below(64) as u8 } else { r.below(n / 4 + 1) as u8 }),
        0x1d => {
            bits(b, 4, 0x20, r.byte());
            if r.one_in(2) {
                bits(b, 5, 0x0f, r.below(10) as u8);
            }
        }
        0x23 => {
            if !r.one_in(3) {
                put16(b, 4, 0x1e98);
            }
            let len = match r.below(5) {
                0 => r.below(4096),
                1 => 0x38,
                2 => n,
                3 => r.below(n + 3),
                _ => r.below(0x40),
            } as u16;
            let v = get16(b, 6) & 0xf;
            put16(b, 6, if r.one_in(3) { v } else { 0 } | len << 4);
            if !r.one_in(6) {
                put16(b, 8, r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]));
            }
        }
        _ => (),
    }
}

pub fn conv_body(r: &mut Rng, id: u8, len: usize, bridge: bool) -> Vec<u8> {
    let mut b = background(r, len);
    if !r.one_in(4) {
        shape_conv(r, id, &mut b, bridge);
    }
    b
}
pub fn ext_body(r: &mut Rng, id: u16, len: usize) -> Vec<u8> {
    let mut b = background(r, len);
    if !r.one_in(4) {
        shape_ext(r, id, &mut b);
    }
    b
}

pub fn conv_body_len(r: &mut Rng, id: u8) -> usize {
    let n = conv_len(id);
    match r.below(6) {
        0 => r.below(n + 4),
        1 => n,
        2 => n + r.below(8),
        3 => n.saturating_sub(r.below(8)),
        _ => n + r.below(80),
    }
}
pub fn ext_body_len(r: &mut Rng, id: u16) -> usize {
    let n = ext_len(id);
    match r.below(6) {
        0 => 4 + r.below(n),
        1 => n,
        2 => n + r.below(8),
        3 => n.saturating_sub(r.below(8)).max(4),
        4 if r.one_in(3) => {
            let m = if r.one_in(6) { 3700 - n } else { 320 };
            n + r.below(m)
        },
        _ => n + r.below(if matches!(id, 2 | 8 | 9) { 320 } else { 90 }),
    }
}

/// Data from 40h on with one structure at `pos`; everything before it is noise.
pub fn conv_place(r: &mut Rng, id: u8, next: u8, pos: u8, body: &[u8]) -> Vec<u8> {
    let o = pos as usize - 0x40;
    let mut v = vec![0; o];
    if o > 0 && !r.one_in(3) {
        r.fill(&mut v);
    }
    v.push(id);
    v.push(next);
    v.extend_from_slice(body);
    v
}
/// Data from 100h on with one structure at `pos`, reached through a null structure when elsewhere.
/// `body` holds the structure including its header, which is written here.
pub fn ext_place(r: &mut Rng, id: u16, version: u8, next: u16, pos: u16, body: &[u8]) -> Vec<u8> {
    let o = pos as usize - 0x100;
    let mut v = vec![0; o];
    if o >= 4 {
        if !r.one_in(3) {
            r.fill(&mut v);
        }
        // an id without registers of its own, so that only the link matters
        ext_head(&mut v, 0, r.pick(&[0, 0x11, 0x14, 0x25, 0x77, 0xffff]), 1 + r.below(15) as u8, pos);
    }
    v.extend_from_slice(body);
    if v.len() < o + 4 {
        v.resize(o + 4, 0);
    }
    ext_head(&mut v, o, id, version, next);
    v
}
pub fn ext_head(v: &mut [u8], o: usize, id: u16, version: u8, next: u16) {
    let w = id as u32 | (version as u32 & 0xf) << 16 | (next as u32) << 20;
    v[o..o + 4].copy_from_slice(&w.to_le_bytes());
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hk {
    Normal,
    Bridge,
    Cardbus,
    Reserved,
    Virtio,
}
pub const HKS: [Hk; 5] = [Hk::Normal, Hk::Bridge, Hk::Cardbus, Hk::Reserved, Hk::Virtio];

/// A 64-byte header of this layout with `cap` as its capabilities pointer.
pub fn header_bytes(r: &mut Rng, k: Hk, cap: u8) -> [u8; 64] {
    let mut h = [0u8; 64];
    if !r.one_in(3) {
        r.fill(&mut h);
    }
    if !novel().is_empty() && r.one_in(2) {
        sprinkle(r, &mut h);
        if r.one_in(2) {
            sprinkle(r, &mut h[..16]);
        }
    }
    h[0xe] = h[0xe] & 0x80
        | match k {
            Hk::Normal | Hk::Virtio => 0,
            Hk::Bridge => 1,
            Hk::Cardbus => 2,
            Hk::Reserved => 3 + r.below(125) as u8,
        };
    if k == Hk::Virtio {
        h[0..2].copy_from_slice(&0x1af4u16.to_le_bytes());
        let dev: u16 = match r.below(4) {
            0 => r.pick(&[0x0fff, 0x1000, 0x107f, 0x1080]),
            _ => 0x1000 + r.below(0x80) as u16,
        };
        h[2..4].copy_from_slice(&dev.to_le_bytes());
    }
    h[match k {
        Hk::Cardbus => 0x14,
        _ => 0x34,
    }] = cap;
    h
}

/// Header layouts that matter for structure `id`.
pub fn hk_for(r: &mut Rng, id: u8) -> Hk {
    match id {
        0x07 | 0x14 => r.pick(&[Hk::Normal, Hk::Bridge, Hk::Normal, Hk::Bridge, Hk::Cardbus]),
        0x09 => r.pick(&[Hk::Normal, Hk::Virtio, Hk::Virtio, Hk::Bridge]),
        _ => r.pick(&[Hk::Normal, Hk::Normal, Hk::Bridge, Hk::Cardbus]),
    }
}

/// A conventional region with a random chain; returns (start pointer, bytes from 40h on).
pub fn conv_space(r: &mut Rng, bridge: bool) -> (u8, Vec<u8>) {
    let len = match r.below(8) {
        0 => r.below(193),
        1 => 192 + r.below(64),
        2 => 192 - r.below(16),
        _ => 192,
    };
    let mut v = background(r, len);
    let slots = len / 4;
    if slots == 0 {
        return (r.byte(), v);
    }
    let n = match r.below(4) {
        0 => r.below(3),
        1 => r.below(48),
        _ => 1 + r.below(10),
    };
    let mut pos: Vec<u8> = vec![];
    let dense = r.one_in(4);
    for i in 0..n {
        let p = if dense { 0x40 + 4 * ((i * 7 + 3) % slots.min(48)) } else { 0x40 + 4 * r.below(slots.min(48)) } as u8;
        pos.push(p);
    }
    for (i, &p) in pos.iter().enumerate() {
        let o = p as usize - 0x40;
        if o + 2 > len {
            continue;
        }
        let id = match r.below(8) {
            0 => r.byte(),
            1 => r.below(0x18) as u8,
            _ => r.pick(&CONV_IDS),
        };
        v[o] = id;
        let room = (len - o - 2).min(conv_len(id));
        if r.one_in(2) {
            shape_conv(r, id, &mut v[o + 2..o + 2 + room], bridge);
        }
        let low = if r.one_in(3) { r.below(4) as u8 } else { 0 };
        v[o + 1] = low
            | match pos.get(i + 1) {
                Some(&q) => q,
                None => match r.below(8) {
                    0 => r.byte() & 0xfc,
                    1 => pos[r.below(pos.len())],
                    2 => r.pick(&[0x04, 0x3c, 0x34, 0xfc, 0xf8]),
                    _ => 0,
                },
            };
    }
    let start = match r.below(12) {
        0 => r.byte(),
        1 => 0,
        2 => r.below(0x40) as u8,
        _ => pos.first().copied().unwrap_or(0) | if r.one_in(3) { r.below(4) as u8 } else { 0 },
    };
    (start, v)
}

/// An extended region with a random chain (bytes from 100h on).
pub fn ext_space(r: &mut Rng) -> Vec<u8> {
    let full = 0x1000 - 0x100;
    let len = match r.below(8) {
        0 => r.below(full + 1),
        1 => r.below(64),
        2 => full - r.below(16),
        3 => full + r.below(64),
        4 => 0x100 + r.below(0x100),
        _ => full,
    };
    let mut v = background(r, len);
    let slots = (len / 4).min(full / 4);
    if slots == 0 {
        return v;
    }
    let n = match r.below(12) {
        0 => 0,
        1 => r.below(960),
        2 => r.below(100),
        _ => 1 + r.below(16),
    };
    let dense = r.one_in(3);
    let mut pos: Vec<u16> = vec![0x100];
    for i in 1..=n {
        let s = if dense { (i * 7) % slots } else { r.below(slots) };
        pos.push(0x100 + 4 * s as u16);
    }
    for (i, &p) in pos.iter().enumerate() {
        let o = p as usize - 0x100;
        if o + 4 > len {
            continue;
        }
        let id = match r.below(8) {
            0 => (r.next() >> 30) as u16,
            1 => r.below(0x38) as u16,
            _ => r.pick(&EXT_IDS),
        };
        if r.one_in(2) {
            let room = (len - o).min(ext_len(id) + 16);
            shape_ext(r, id, &mut v[o..o + room]);
        }
        let low = if r.one_in(3) { r.below(4) as u16 } else { 0 };
        let next = low
            | match pos.get(i + 1) {
                Some(&q) => q,
                None => match r.below(8) {
                    0 => (r.next() >> 30) as u16 & 0xffc,
                    1 => pos[r.below(pos.len())],
                    2 => r.pick(&[0x004, 0x0fc, 0x100, 0xffc, 0xff8, 0x040]),
                    _ => 0,
                },
            };
        ext_head(&mut v, o, id, r.below(16) as u8, next);
    }
    if r.one_in(20) {
        v[..4.min(len)].fill(0);
    }
    v
}

/// Configuration-space dumps that come with the repository.
pub fn dumps() -> Vec<(String, Vec<u8>)> {
    let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    ["tests/data/device/8086_2030/config", "tests/data/device/8086_9dc8/config", "tests/data/random/4k"]
        .iter()
        .filter_map(|p| std::fs::read(format!("{root}/{p}")).ok().map(|d| (p.to_string(), d)))
        .collect()
}
