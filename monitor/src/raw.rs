//! Independent little-endian / bit-field access. Deliberately does not use heterob.

pub fn u8at(d: &[u8], o: usize) -> u8 {
    d[o]
}
pub fn u16at(d: &[u8], o: usize) -> u16 {
    d[o] as u16 | (d[o + 1] as u16) << 8
}
pub fn u32at(d: &[u8], o: usize) -> u32 {
    u16at(d, o) as u32 | (u16at(d, o + 2) as u32) << 16
}
pub fn u64at(d: &[u8], o: usize) -> u64 {
    u32at(d, o) as u64 | (u32at(d, o + 4) as u64) << 32
}

/// A register of up to 64 bits: `f(hi, lo)` is the field [hi:lo], `t(n)` is bit n.
#[derive(Clone, Copy, Debug)]
pub struct Reg(pub u64);
impl Reg {
    pub fn f(self, hi: u32, lo: u32) -> u64 {
        assert!(hi >= lo && hi < 64);
        let w = hi - lo + 1;
        let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        (self.0 >> lo) & m
    }
    pub fn b(self, hi: u32, lo: u32) -> u8 {
        assert!(hi - lo < 8);
        self.f(hi, lo) as u8
    }
    pub fn w(self, hi: u32, lo: u32) -> u16 {
        assert!(hi - lo < 16);
        self.f(hi, lo) as u16
    }
    pub fn d(self, hi: u32, lo: u32) -> u32 {
        assert!(hi - lo < 32);
        self.f(hi, lo) as u32
    }
    pub fn t(self, n: u32) -> bool {
        self.f(n, n) == 1
    }
}
pub fn r8(d: &[u8], o: usize) -> Reg {
    Reg(u8at(d, o) as u64)
}
pub fn r16(d: &[u8], o: usize) -> Reg {
    Reg(u16at(d, o) as u64)
}
pub fn r32(d: &[u8], o: usize) -> Reg {
    Reg(u32at(d, o) as u64)
}
pub fn r64(d: &[u8], o: usize) -> Reg {
    Reg(u64at(d, o))
}
