//! Class code names, in the shape of the PCI ID repository's class list.
pub struct Table {
    pub base: [Option<&'static str>; 256],
    pub sub: Vec<Option<&'static str>>,
    pub interface: std::collections::HashMap<u32, &'static str>,
}
pub fn table() -> Table {
    let mut t = Table { base: [None; 256], sub: vec![None; 65536], interface: Default::default() };
    let (mut b, mut s) = (0usize, 0usize);
    for l in include_str!("classes.txt").lines() {
        let x = l.trim_start();
        let v = usize::from_str_radix(&x[..2], 16).expect("class number");
        let name = &x[3..];
        match l.len() - x.len() {
            0 => {
                b = v;
                t.base[b] = Some(name);
            }
            2 => {
                s = v;
                t.sub[b << 8 | s] = Some(name);
            }
            _ => {
                t.interface.insert((b << 16 | s << 8 | v) as u32, name);
            }
        }
    }
    t
}
impl Table {
    pub fn meaning(&self, base: u8, sub: u8, interface: u8) -> (&'static str, Option<&'static str>, Option<&'static str>) {
        let Some(b) = self.base[base as usize] else { return ("Reserved", None, None) };
        let k = (base as usize) << 8 | sub as usize;
        let i = self.interface.get(&((k as u32) << 8 | interface as u32)).copied();
        (b, self.sub[k], i)
    }
}
