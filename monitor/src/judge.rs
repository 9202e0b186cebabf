//! Lock-step comparison of the library against the reference model. Every judgement carries the
//! set of properties it would break; the running check reports only its own.
use crate::engine::*;
use crate::model::{caps1, caps2, ext1, ext2, header as mh, pcie};
use crate::raw::*;
use pcics::capabilities::{
    self as caps, Capabilities, Capability, CapabilityError, CapabilityKind as K,
};
use pcics::extended_capabilities::{
    self as ecaps, ExtendedCapabilities, ExtendedCapability, ExtendedCapabilityError,
    ExtendedCapabilityKind as E,
};
use pcics::header::{BaseAddresses, Cardbus, Header, HeaderType};
use std::fmt::{Debug, Write};

/// Formatting target that keeps nothing but a hash, so formatting can be exercised without heap use.
pub struct Sink {
    pub n: u64,
    pub h: u64,
}
impl Sink {
    pub fn new() -> Self {
        Sink { n: 0, h: 0xcbf29ce484222325 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.n += s.len() as u64;
        for &b in s.as_bytes() {
            self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}
/// Formatting target that only counts.
struct Length(u64);
impl Write for Length {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
pub fn dbg_hash(t: &impl Debug) -> u64 {
    let mut s = Sink::new();
    write!(s, "{t:?}").unwrap();
    s.h
}

/// Fixed-capacity text, for looking at error messages without allocating.
pub struct Text {
    b: [u8; 256],
    n: usize,
}
impl Text {
    pub fn of(t: &impl std::fmt::Display) -> Self {
        let mut s = Text { b: [0; 256], n: 0 };
        write!(s, "{t}").unwrap();
        s
    }
    pub fn str(&self) -> &str {
        std::str::from_utf8(&self.b[..self.n]).unwrap_or("")
    }
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &c in s.as_bytes() {
            if self.n < 256 {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
        Ok(())
    }
}

pub fn conv_group(id: u8) -> Tags {
    match id {
        0x01 | 0x05 | 0x11 => c(9),
        0x02 | 0x03 | 0x04 | 0x09 | 0x0a | 0x0d | 0x12 | 0x13 | 0x15 => c(10),
        0x07 | 0x08 => c(11),
        0x10 => c(12),
        0x14 => c(13),
        _ => 0,
    }
}
pub fn ext_group(id: u16) -> Tags {
    match id {
        0x01 | 0x1d => c(14),
        0x18 | 0x1e | 0x1f | 0x16 | 0x04 | 0x19 | 0x20 | 0x22 | 0x21 | 0x1a => c(15),
        0x10 | 0x0f | 0x13 | 0x1b | 0x0e | 0x0d | 0x17 | 0x1c | 0x12 | 0x15 | 0x24 => c(16),
        0x02 | 0x08 | 0x09 => c(17),
        0x05 | 0x06 | 0x07 | 0x0a | 0x03 | 0x0c | 0x0b => c(18),
        0x23 => c(19),
        _ => 0,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    /// pointer below the region
    Low,
    /// header not readable at this position
    Unreadable(u16),
    /// structure at this position, with this id
    At(u16, u16),
}

/// Reference walk of the conventional list. `data` holds the bytes from 40h on.
pub fn ref_conv(data: &[u8], start: u8) -> Vec<Step> {
    let mut seen = [false; 64];
    let mut p = start;
    let mut out = vec![];
    loop {
        p -= p % 4;
        if p == 0 || seen[p as usize / 4] {
            return out;
        }
        seen[p as usize / 4] = true;
        if p < 0x40 {
            out.push(Step::Low);
            return out;
        }
        let o = p as usize - 0x40;
        if o + 2 > data.len() {
            out.push(Step::Unreadable(p as u16));
            return out;
        }
        out.push(Step::At(p as u16, data[o] as u16));
        p = data[o + 1];
    }
}

/// Reference walk of the extended list. `data` holds the bytes from 100h on.
pub fn ref_ext(data: &[u8]) -> Vec<Step> {
    let mut seen = [false; 1024];
    let mut p = 0x100u16;
    let mut out = vec![];
    loop {
        p -= p % 4;
        if p == 0 || seen[p as usize / 4] {
            return out;
        }
        seen[p as usize / 4] = true;
        if p < 0x100 {
            out.push(Step::Low);
            return out;
        }
        let o = p as usize - 0x100;
        if o + 4 > data.len() {
            out.push(Step::Unreadable(p));
            return out;
        }
        let w = r32(data, o);
        if w.0 == 0 {
            return out;
        }
        out.push(Step::At(p, w.w(15, 0)));
        p = w.w(31, 20);
    }
}

pub fn conv_kind_id(k: &K) -> u16 {
    match k {
        K::NullCapability => 0,
        K::PowerManagementInterface(_) => 1,
        K::AcceleratedGraphicsPort(_) => 2,
        K::VitalProductData(_) => 3,
        K::SlotIdentification(_) => 4,
        K::MessageSignaledInterrups(_) => 5,
        K::CompactPciHotSwap(_) => 6,
        K::PciX(_) => 7,
        K::PciXBridge(_) => 0x107,
        K::Hypertransport(_) => 8,
        K::VendorSpecific(_) => 9,
        K::DebugPort(_) => 0xa,
        K::CompactPciResourceControl(_) => 0xb,
        K::PciHotPlug(_) => 0xc,
        K::BridgeSubsystemVendorId(_) => 0xd,
        K::Agp8x(_) => 0xe,
        K::SecureDevice(_) => 0xf,
        K::PciExpress(_) => 0x10,
        K::MsiX(_) => 0x11,
        K::Sata(_) => 0x12,
        K::AdvancedFeatures(_) => 0x13,
        K::EnhancedAllocation(_) => 0x14,
        K::FlatteningPortalBridge(_) => 0x15,
        // only ids without a meaning of their own may end here
        K::Reserved(v) if *v > 0x15 => *v as u16,
        K::Reserved(v) => 0x200 | *v as u16,
    }
}
pub fn ext_kind_id(k: &E) -> u32 {
    match k {
        E::Null => 0,
        E::AdvancedErrorReporting(_) => 1,
        E::VirtualChannel(_) => 2,
        E::DeviceSerialNumber(_) => 3,
        E::PowerBudgeting(_) => 4,
        E::RootComplexLinkDeclaration(_) => 5,
        E::RootComplexInternalLinkControl(_) => 6,
        E::RootComplexEventCollectorEndpointAssociation(_) => 7,
        E::MultifunctionVirtualChannel(_) => 8,
        E::VirtualChannelMfvcPresent(_) => 9,
        E::RootComplexRegisterBlockHeader(_) => 0xa,
        E::VendorSpecificExtendedCapability(_) => 0xb,
        E::ConfigurationAccessCorrelation(_) => 0xc,
        E::AccessControlServices(_) => 0xd,
        E::AlternativeRoutingIdInterpretation(_) => 0xe,
        E::AddressTranslationServices(_) => 0xf,
        E::SingleRootIoVirtualization(_) => 0x10,
        E::MultiRootIoVirtualization(_) => 0x11,
        E::Multicast(_) => 0x12,
        E::PageRequestInterface(_) => 0x13,
        E::ReservedForAmd(_) => 0x14,
        E::ResizableBar(_) => 0x15,
        E::DynamicPowerAllocation(_) => 0x16,
        E::TphRequester(_) => 0x17,
        E::LatencyToleranceReporting(_) => 0x18,
        E::SecondaryPciExpress(_) => 0x19,
        E::ProtocolMultiplexing(_) => 0x1a,
        E::ProcessAddressSpaceId(_) => 0x1b,
        E::LnRequester(_) => 0x1c,
        E::DownstreamPortContainment(_) => 0x1d,
        E::L1PmSubstates(_) => 0x1e,
        E::PrecisionTimeMeasurement(_) => 0x1f,
        E::PciExpressOverMphy(_) => 0x20,
        E::FrsQueuing(_) => 0x21,
        E::ReadinessTimeReporting(_) => 0x22,
        E::DesignatedVendorSpecificExtendedCapability(_) => 0x23,
        E::VfResizableBar(_) => 0x24,
        E::DataLinkFeature(_) => 0x25,
        E::PhysicalLayer16GTps(_) => 0x26,
        E::LaneMarginingAtTheReceiver(_) => 0x27,
        E::HierarchyId(_) => 0x28,
        E::NativePcieEnclosureManagement(_) => 0x29,
        E::PhysicalLayer32GTps(_) => 0x2a,
        E::AlternateProtocol(_) => 0x2b,
        E::SystemFirmwareIntermediary(_) => 0x2c,
        E::ShadowFunctions(_) => 0x2d,
        E::DataObjectExchange(_) => 0x2e,
        E::Device3(_) => 0x2f,
        E::IntegrityAndDataEncryption(_) => 0x30,
        E::PhysicalLayer64GTps(_) => 0x31,
        E::FlitLogging(_) => 0x32,
        E::FlitPerformanceMeasurement(_) => 0x33,
        E::FlitErrorInjection(_) => 0x34,
        E::Reserved(v) if *v > 0x34 => *v as u32,
        E::Reserved(v) => 0x10000 | *v as u32,
    }
}

/// Compare an iterator with the reference sequence; it must also end, and stay ended.
fn seq<T: PartialEq + Debug>(
    out: &mut Out,
    tags: Tags,
    what: &str,
    it: impl Iterator<Item = T>,
    exp: &[T],
) {
    let mut it = it;
    for (i, e) in exp.iter().enumerate() {
        out.events += 1;
        match it.next() {
            Some(g) if g == *e => (),
            Some(g) => {
                return out.miss(tags, || format!("{what}[{i}]: observed {g:?}, reference says {e:?}"))
            }
            None => {
                let n = exp.len();
                return out
                    .miss(tags, || format!("{what}: ended after {i} of {n} items (next: {e:?})"));
            }
        }
    }
    for _ in 0..2 {
        if let Some(g) = it.next() {
            let n = exp.len();
            return out
                .miss(tags | c(2), || format!("{what}: yields {g:?} past its {n} items"));
        }
    }
}

fn shown(out: &mut Out, v: &impl Debug) {
    if out.mask & (c(1) | c(23)) != 0 && out.evals % out.fmt_every == 0 {
        let mut s = Length(0);
        let _ = write!(s, "{v:?}");
        if out.evals % 16 == 0 {
            let _ = write!(s, "{v:#?}");
        }
        out.add_fmt(s.0);
    }
}

// ------------------------------------------------------------------ conventional list

/// Walk the conventional list of `data` (bytes from 40h on) and judge everything it yields.
pub fn conv(out: &mut Out, data: &[u8], h: &Header) {
    let exp = ref_conv(data, h.capabilities_pointer);
    let mut it = Capabilities::new(data, h);
    let mut after_error = false;
    for s in &exp {
        let got = it.next();
        out.events += 1;
        let Some(got) = got else {
            // one that cannot be decoded must still be reported, as an error
            let failing = match *s {
                Step::At(p, id) => crate::extra::short_conv(id as u8, (data.len() + 0x3e).saturating_sub(p as usize)),
                _ => true,
            };
            let t = c(3) | if after_error || failing { c(24) } else { 0 };
            return out.miss(t, || format!("list ends early: {s:?} is not reported (of {exp:?})"));
        };
        if let Ok(x) = &got {
            shown(out, x);
        } else if let Err(e) = &got {
            shown(out, e);
        }
        match *s {
            Step::Low => out.check(c(3) | c(24), got == Err(CapabilityError::Pointer), || {
                format!("pointer below 40h: observed {got:?}")
            }),
            Step::Unreadable(p) => out.check(
                c(3) | c(24) | c(20),
                got == Err(CapabilityError::Header { ptr: p as u8 }),
                || format!("no header at {p:02x}h: observed {got:?}"),
            ),
            Step::At(p, id) => {
                let d = &data[p as usize - 0x40 + 2..];
                if !conv_one(out, p as u8, id as u8, d, h, &got) {
                    return;
                }
            }
        }
        after_error = got.is_err();
    }
    for _ in 0..3 {
        if let Some(x) = it.next() {
            return out.miss(c(2) | c(3), || {
                format!("the list continues past its end with {x:?} (reference: {exp:?})")
            });
        }
    }
}

/// `Some(loc)`: `e` is an error of the kind the structure `id` reports, at `loc`.
fn conv_err_at(id: u8, e: &CapabilityError) -> Option<u8> {
    use CapabilityError as C;
    match (id, e) {
        (5, C::MessageSignaledInterrups { ptr, .. })
        | (7, C::PciX { ptr, .. })
        | (7, C::PciXBridge { ptr, .. })
        | (8, C::Hypertransport { ptr, .. })
        | (9, C::VendorSpecific { ptr, .. })
        | (0x10, C::PciExpress { ptr, .. })
        | (0x14, C::EnhancedAllocation { ptr, .. }) => Some(*ptr),
        (1..=4 | 0xa | 0xd | 0x11..=0x13 | 0x15, C::Data { ptr, .. }) => Some(*ptr),
        _ => None,
    }
}

/// Judge one conventional structure; `false` when the walks are out of step.
fn conv_one(
    out: &mut Out,
    p: u8,
    id: u8,
    d: &[u8],
    h: &Header,
    got: &Result<Capability, CapabilityError>,
) -> bool {
    let g = conv_group(id);
    let bridge = matches!(h.header_type, HeaderType::Bridge(_));
    out.structure(id as u32, d, got.is_ok());
    match got {
        Ok(cap) => {
            if cap.pointer != p {
                out.miss(c(3), || format!("structure at {p:02x}h reported at {:02x}h", cap.pointer));
                return false;
            }
            let want = if id == 7 && bridge { 0x107 } else { id as u16 };
            let is = conv_kind_id(&cap.kind);
            if is != want {
                out.miss(c(3) | g, || format!("id {id:02x}h at {p:02x}h reported as {:?}", cap.kind));
                return false;
            }
        }
        Err(e) => match conv_err_at(id, e) {
            Some(l) if l == p => {
                // the text must say where
                if out.mask & c(24) != 0 {
                    let t = Text::of(e);
                    let mut loc = Text { b: [0; 256], n: 0 };
                    let _ = write!(loc, "[{p:02x}]");
                    out.check(c(24), t.str().contains(loc.str()), || {
                        format!("message {:?} does not name {p:02x}h", t.str())
                    });
                    conv_err_name(out, id, e, t.str());
                    let cause = conv_cause(e);
                    out.check(c(24), t.str().contains(cause.str()), || format!("message {:?} does not say {:?}", t.str(), cause.str()));
                }
            }
            _ => {
                out.miss(c(24) | c(3), || format!("id {id:02x}h at {p:02x}h reported as {e:?}"));
                // a decode error of a structure that has no reason to fail
            }
        },
    }
    macro_rules! opt {
        ($variant:ident, $model:expr) => {{
            let m = $model;
            match (got, &m) {
                (Ok(Capability { kind: K::$variant(v), .. }), Some(m)) => {
                    out.eq(g, concat!(stringify!($variant)), v, m);
                }
                (Err(_), None) => out.events += 1,
                _ => disagree(out, g, id as u32, d, got, m.is_some()),
            }
            m
        }};
    }
    macro_rules! res {
        ($variant:ident, $model:expr) => {{
            let m = $model;
            match (got, &m) {
                (Ok(Capability { kind: K::$variant(v), .. }), Ok(m)) => {
                    out.eq(g, concat!(stringify!($variant)), v, m);
                }
                (Err(CapabilityError::$variant { source, .. }), Err(m)) => {
                    out.eq(c(24), concat!(stringify!($variant), " error"), source, m);
                }
                (Err(_), Err(m)) => {
                    out.miss(c(24), || format!("observed {got:?}, reference says {m:?}"))
                }
                _ => disagree(out, g, id as u32, d, got, m.is_ok()),
            }
            m
        }};
    }
    match id {
        0x01 => {
            let m = opt!(PowerManagementInterface, caps1::pmi(d));
            if let (Ok(Capability { kind: K::PowerManagementInterface(v), .. }), Some(m)) = (got, m) {
                out.eq(c(25) | g, "power data", &v.data(), &caps1::pmi_data(&m));
            }
        }
        0x02 => {
            let m = opt!(AcceleratedGraphicsPort, caps1::agp(d));
            if let (Ok(Capability { kind: K::AcceleratedGraphicsPort(v), .. }), Some(m)) = (got, m) {
                let there = |a: &caps::AcceleratedGraphicsPort| {
                    [
                        a.isochronous_status.is_some(),
                        a.control.is_some(),
                        a.aperture_size.is_some(),
                        a.enabled_aperture_page_size.is_some(),
                        a.gart_pointer.is_some(),
                        a.isochronous_command.is_some(),
                    ]
                };
                out.eq(g | c(20), "AGP registers present", &there(v), &there(&m));
            }
        }
        0x03 => drop(opt!(VitalProductData, caps1::vpd(d))),
        0x04 => drop(opt!(SlotIdentification, caps1::slot_id(d))),
        0x05 => {
            use caps::message_signaled_interrups::MessageSignaledInterrupsError as M;
            let m = opt!(MessageSignaledInterrups, caps1::msi(d));
            match got {
                Ok(Capability { kind: K::MessageSignaledInterrups(v), .. }) if m.is_some() => {
                    let r = r16(d, 0);
                    for (n, x, e) in [
                        ("capable", &v.message_control.multiple_message_capable, r.b(3, 1)),
                        ("enable", &v.message_control.multiple_message_enable, r.b(6, 4)),
                    ] {
                        out.eq(c(25) | g, n, &(x.number_of_vectors() as u32), &(1u32 << e));
                    }
                }
                Err(CapabilityError::MessageSignaledInterrups { source, .. }) => {
                    let e = if d.len() < 2 {
                        M::MessageControl
                    } else {
                        match (d[0] & 0x80 != 0, d[1] & 1 != 0) {
                            (false, false) => M::Size32bit,
                            (true, false) => M::Size64bit,
                            (false, true) => M::Size32bitPerVector,
                            (true, true) => M::Size64bitPerVector,
                        }
                    };
                    out.eq(c(24), "MSI error", source, &e);
                }
                _ => (),
            }
        }
        0x07 if bridge => {
            let m = res!(PciXBridge, caps2::pci_x_bridge(d));
            if let (Ok(Capability { kind: K::PciXBridge(v), .. }), Ok(_)) = (got, m) {
                let f = r16(d, 0).b(9, 6);
                out.eq(
                    c(25) | g,
                    "secondary bus mode and frequency",
                    &v.secondary_status.secondary_bus_mode_and_frequency(),
                    &f,
                );
            }
        }
        0x07 => {
            let m = res!(PciX, caps2::pci_x(d));
            if let (Ok(Capability { kind: K::PciX(v), .. }), Ok(_)) = (got, m) {
                let (k, s) = (r16(d, 0), r32(d, 2));
                const OST: [u8; 8] = [1, 2, 3, 4, 8, 12, 16, 32];
                let t = c(25) | g;
                out.eq(t, "max read", &v.command.maximum_memory_read_byte_count.value(), &(512 << k.f(3, 2)));
                out.eq(t, "max split", &v.command.maximum_outstanding_split_transactions.value(), &OST[k.f(6, 4) as usize]);
                out.eq(t, "designed read", &v.status.designed_maximum_memory_read_byte_count.value(), &(512 << s.f(22, 21)));
                out.eq(t, "designed split", &v.status.designed_maximum_outstanding_split_transactions.value(), &OST[s.f(25, 23) as usize]);
                out.eq(t, "cumulative adqs", &v.status.designed_maximum_cumulative_read_size.adqs(), &(8 << s.f(28, 26)));
                out.eq(t, "cumulative bytes", &v.status.designed_maximum_cumulative_read_size.bytes(), &(1024 << s.f(28, 26)));
            }
        }
        0x08 => {
            use caps::Hypertransport as H;
            let m = res!(Hypertransport, caps2::hypertransport(d));
            if let (Ok(Capability { kind: K::Hypertransport(v), .. }), Ok(_)) = (got, m) {
                let t = c(25) | g;
                out.eq(t | c(22), "type field", &u8::from(v), &caps2::ht::type_code(d));
                match v {
                    H::SlaveOrPrimaryInterface(v) => {
                        for e in [false, true] {
                            out.eq(t, "link 0 frequency", &v.link_freq_0(e), &caps2::ht::frequency(e, d[11] & 0xf));
                            out.eq(t, "link 1 frequency", &v.link_freq_1(e), &caps2::ht::frequency(e, d[15] & 0xf));
                        }
                    }
                    H::HostOrSecondaryInterface(v) => {
                        for e in [false, true] {
                            out.eq(t, "link frequency", &v.link_freq(e), &caps2::ht::frequency(e, d[7] & 0xf));
                        }
                    }
                    H::MsiMapping(v) => {
                        out.eq(t, "MSI mapping base", &v.base_address(), &(u64at(d, 2) & !0xf_ffff));
                    }
                    _ => (),
                }
            }
        }
        0x09 => {
            use caps::vendor_specific::VendorSpecificError as V;
            let m = opt!(VendorSpecific, caps1::vendor_specific(d, h));
            if let (Ok(Capability { kind: K::VendorSpecific(v), .. }), Some(m)) = (got, m) {
                use caps::vendor_specific::{VendorSpecific as S, Virtio};
                let there = |a: &S| match a {
                    S::Unspecified(d) => d.len(),
                    S::Virtio(Virtio::Notify { multiplier, .. }) => multiplier.is_some() as usize,
                    _ => 0,
                };
                out.eq(g | c(20), "vendor specific data present", &there(v), &there(&m));
            }
            if let Err(CapabilityError::VendorSpecific { source, .. }) = got {
                let e = match d.first() {
                    None => V::LengthUnreadable,
                    Some(&l) if l < 3 => V::Length { val: l },
                    Some(&l) if d.len() < l as usize - 2 => V::Data { size: l as usize - 2 },
                    _ => V::Virtio,
                };
                out.eq(c(24), "vendor specific error", source, &e);
            }
        }
        0x0a => drop(opt!(DebugPort, caps1::debug_port(d))),
        0x0d => drop(opt!(BridgeSubsystemVendorId, caps1::ssvid(d))),
        0x10 => {
            let m = res!(PciExpress, pcie::pci_express(d));
            if let (Ok(Capability { kind: K::PciExpress(v), .. }), Ok(m)) = (got, m) {
                out.eq(g | c(20), "PCI Express registers present", &pcie_parts(v), &pcie_parts(&m));
                pcie_derived(out, d, v);
            }
        }
        0x11 => drop(opt!(MsiX, caps1::msix(d))),
        0x12 => {
            let m = opt!(Sata, caps1::sata(d));
            if let (Ok(Capability { kind: K::Sata(v), .. }), Some(_)) = (got, m) {
                out.eq(c(25) | g, "BAR offset", &v.bar_offset.value(), &(r32(d, 2).d(23, 4) * 4));
            }
        }
        0x13 => drop(opt!(AdvancedFeatures, caps1::af(d))),
        0x14 => {
            use caps::enhanced_allocation::EnhancedAllocationError as A;
            let m = caps1::ea(d, h);
            match (got, &m) {
                (Ok(Capability { kind: K::EnhancedAllocation(v), .. }), Some(m)) => {
                    out.eq(g, "number of EA entries", &v.num_entries, &m.num_entries);
                    out.eq(g, "EA second DW", &v.type_1_second_dw, &m.type_1);
                    seq(out, g | c(20), "EA entries", v.entries.clone(), &m.entries);
                }
                (Err(CapabilityError::EnhancedAllocation { source, .. }), None) => {
                    let e = if d.len() < 2 { A::NumEntries } else { A::Type1SecondDw };
                    out.eq(c(24), "EA error", source, &e);
                }
                (Err(_), None) => (),
                _ => disagree(out, g, id as u32, d, got, m.is_some()),
            }
        }
        0x15 => drop(opt!(FlatteningPortalBridge, caps1::fpb(d))),
        _ => {
            if let Err(e) = got {
                out.miss(c(3) | c(24), || format!("id {id:02x}h needs no data, observed {e:?}"));
            }
        }
    }
    true
}

fn disagree<T: Debug>(out: &mut Out, g: Tags, id: u32, d: &[u8], got: &T, fits: bool) {
    out.miss(g | c(20), || {
        format!(
            "structure {id:02x}h with {} bytes of body: reference says it {}, observed {got:?}",
            d.len(),
            if fits { "is complete" } else { "cannot be decoded" }
        )
    });
}

fn has(t: &str, words: &[&str]) -> bool {
    words.iter().any(|w| t.to_ascii_lowercase().contains(w))
}
fn conv_err_name(out: &mut Out, id: u8, e: &CapabilityError, t: &str) {
    let words: &[&str] = match id {
        1 => &["power management"],
        2 => &["agp", "accelerated graphics"],
        3 => &["vital product", "vpd"],
        4 => &["slot identification"],
        5 => &["msi"],
        7 => &["pci-x"],
        8 => &["hypertransport"],
        9 => &["vendor"],
        0xa => &["debug port"],
        0xd => &["subsystem vendor"],
        0x10 => &["pci express"],
        0x11 => &["msi-x"],
        0x12 => &["sata", "serial ata"],
        0x13 => &["advanced features"],
        0x14 => &["enhanced allocation"],
        0x15 => &["flattening portal"],
        _ => return,
    };
    // not the name of a similar structure
    let (and, not): (&str, &str) = match (id, e) {
        (5, _) => ("", "msi-x"),
        (7, CapabilityError::PciXBridge { .. }) => ("bridge", "no such name"),
        (7, _) => ("", "bridge"),
        (0x10, _) => ("", "pci-x"),
        _ => ("", "no such name"),
    };
    let good = has(t, words) && has(t, &[and]) && !has(t, &[not]);
    out.check(c(24), good, || format!("message {t:?} ({e:?}) does not name the structure"));
}

/// The optional register groups a PCI Express structure has: device 2, root, link 2, slot 2.
fn pcie_parts(v: &caps::PciExpress) -> [bool; 4] {
    use caps::pci_express::DeviceType as D;
    let (r, l, s) = match &v.device_type {
        D::Endpoint { link_2, .. }
        | D::LegacyEndpoint { link_2, .. }
        | D::UpstreamPort { link_2, .. }
        | D::PcieToPciBridge { link_2, .. } => (false, link_2.is_some(), false),
        D::RootComplexIntegratedEndpoint => (false, false, false),
        D::RootComplexEventCollector { .. } => (true, false, false),
        D::RootPort { link_2, slot_2, .. } => (true, link_2.is_some(), slot_2.is_some()),
        D::DownstreamPort { link_2, slot_2, .. } | D::PciToPcieBridge { link_2, slot_2, .. } => {
            (false, link_2.is_some(), slot_2.is_some())
        }
        D::Reserved { link_2, slot_2, root, .. } => (root.is_some(), link_2.is_some(), slot_2.is_some()),
    };
    [v.device_2.is_some(), r, l, s]
}

fn pcie_derived(out: &mut Out, d: &[u8], v: &caps::PciExpress) {
    let t = c(25) | c(12);
    let ty = d[0] >> 4;
    out.eq(t, "is_endpoint", &v.device_type.is_endpoint(), &matches!(ty, 0 | 1 | 9));
    out.eq(t, "is_root", &v.device_type.is_root(), &matches!(ty, 4 | 10));
    out.eq(t, "is_downstream_port", &v.device_type.is_downstream_port(), &matches!(ty, 4 | 6 | 8));
    let r = r32(d, 2);
    let w = f32::from(&v.device.capabilities.captured_slot_power_limit);
    if let Some(e) = slot_power(r.f(25, 18) as u8, [1.0, 0.1, 0.01, 0.001][r.f(27, 26) as usize]) {
        out.check(t, (w as f64 - e).abs() <= e * 1e-5, || {
            format!("captured slot power limit: observed {w} W, registers say {e} W")
        });
    }
}

/// Slot power limit in watts. With scale 1.0x values above EFh are alternative encodings; those
/// above F2h are reserved.
pub fn slot_power(value: u8, scale: f64) -> Option<f64> {
    match value {
        0xf0 if scale == 1.0 => Some(250.0),
        0xf1 if scale == 1.0 => Some(275.0),
        0xf2 if scale == 1.0 => Some(300.0),
        0xf3..=0xff if scale == 1.0 => None,
        v => Some(v as f64 * scale),
    }
}

// ------------------------------------------------------------------ extended list

pub fn ext(out: &mut Out, data: &[u8]) {
    let exp = ref_ext(data);
    let mut it = ExtendedCapabilities::new(data);
    let mut after_error = false;
    for s in &exp {
        let got = it.next();
        out.events += 1;
        let Some(got) = got else {
            let failing = match *s {
                Step::At(p, id) => crate::extra::short_ext(id, (data.len() + 0x100).saturating_sub(p as usize)),
                _ => true,
            };
            let t = c(4) | if after_error || failing { c(24) } else { 0 };
            return out.miss(t, || format!("list ends early: {s:?} is not reported (of {exp:?})"));
        };
        match &got {
            Ok(x) => shown(out, x),
            Err(e) => shown(out, e),
        }
        match *s {
            Step::Low => {
                out.check(c(4) | c(24), got == Err(ExtendedCapabilityError::Offset), || {
                    format!("offset below 100h: observed {got:?}")
                })
            }
            Step::Unreadable(p) => out.check(
                c(4) | c(24) | c(20),
                got == Err(ExtendedCapabilityError::Header { offset: p }),
                || format!("no header at {p:03x}h: observed {got:?}"),
            ),
            Step::At(p, id) => {
                if !ext_one(out, p, id, &data[p as usize - 0x100..], &got) {
                    return;
                }
            }
        }
        after_error = got.is_err();
    }
    for _ in 0..3 {
        if let Some(x) = it.next() {
            return out.miss(c(2) | c(4), || {
                format!("the list continues past its end with {x:?} (reference: {exp:?})")
            });
        }
    }
}

fn ext_err_at(id: u16, e: &ExtendedCapabilityError) -> Option<u16> {
    use ExtendedCapabilityError as X;
    match (id, e) {
        (1, X::AdvancedErrorReporting { offset, .. })
        | (5, X::RootComplexLinkDeclaration { offset, .. })
        | (8, X::MultifunctionVirtualChannel { offset, .. })
        | (0x15, X::ResizableBar { offset, .. })
        | (0x16, X::DynamicPowerAllocation { offset, .. })
        | (0x1a, X::ProtocolMultiplexing { offset, .. })
        | (0x1d, X::DownstreamPortContainment { offset, .. })
        | (0x23, X::DesignatedVendorSpecificExtendedCapability { offset, .. })
        | (0x24, X::VfResizableBar { offset, .. }) => Some(*offset),
        (
            2..=4 | 6 | 7 | 9..=0x10 | 0x12 | 0x13 | 0x17..=0x19 | 0x1b | 0x1c | 0x1e..=0x22,
            X::Data { offset, .. },
        ) => Some(*offset),
        _ => None,
    }
}
/// The text of the specific cause an error carries.
fn ext_cause(e: &ExtendedCapabilityError) -> Text {
    use ExtendedCapabilityError as X;
    match e {
        X::Data { source, .. } => Text::of(source),
        X::RootComplexLinkDeclaration { source, .. } => Text::of(source),
        X::MultifunctionVirtualChannel { source, .. } => Text::of(source),
        X::SingleRootIoVirtualization { source, .. } => Text::of(source),
        X::AdvancedErrorReporting { source, .. } => Text::of(source),
        X::DownstreamPortContainment { source, .. } => Text::of(source),
        X::ResizableBar { source, .. } => Text::of(source),
        X::DynamicPowerAllocation { source, .. } => Text::of(source),
        X::ProtocolMultiplexing { source, .. } => Text::of(source),
        X::DesignatedVendorSpecificExtendedCapability { source, .. } => Text::of(source),
        X::VfResizableBar { source, .. } => Text::of(source),
        _ => Text { b: [0; 256], n: 0 },
    }
}
fn conv_cause(e: &CapabilityError) -> Text {
    use CapabilityError as C;
    match e {
        C::Data { source, .. } => Text::of(source),
        C::PciExpress { source, .. } => Text::of(source),
        C::Hypertransport { source, .. } => Text::of(source),
        C::VendorSpecific { source, .. } => Text::of(source),
        C::MessageSignaledInterrups { source, .. } => Text::of(source),
        C::PciX { source, .. } => Text::of(source),
        C::PciXBridge { source, .. } => Text::of(source),
        C::EnhancedAllocation { source, .. } => Text::of(source),
        _ => Text { b: [0; 256], n: 0 },
    }
}
fn ext_err_name(out: &mut Out, id: u16, t: &str) {
    let words: &[&str] = match id {
        1 => &["advanced error"],
        2 | 9 => &["virtual channel"],
        3 => &["serial number"],
        4 => &["power budgeting"],
        5 => &["link declaration"],
        6 => &["internal link"],
        7 => &["event collector"],
        8 => &["multi-function virtual", "multifunction virtual", "mfvc"],
        0xa => &["rcrb", "root complex register block"],
        0xb => &["vendor-specific", "vendor specific"],
        0xc => &["access correlation"],
        0xd => &["access control"],
        0xe => &["routing-id", "routing id", "ari"],
        0xf => &["address translation"],
        0x10 => &["single root"],
        0x12 => &["multicast"],
        0x13 => &["page request"],
        0x15 => &["resizable bar"],
        0x16 => &["dynamic power"],
        0x17 => &["tph"],
        0x18 => &["latency tolerance"],
        0x19 => &["secondary pci"],
        0x1a => &["protocol multiplexing"],
        0x1b => &["process address"],
        0x1c => &["ln requester"],
        0x1d => &["downstream port"],
        0x1e => &["l1 pm"],
        0x1f => &["precision time"],
        0x20 => &["m-pcie", "m-phy"],
        0x21 => &["frs"],
        0x22 => &["readiness"],
        0x23 => &["designated vendor"],
        0x24 => &["vf resizable"],
        _ => return,
    };
    let not = match id {
        2 | 9 => "multi",
        0xb => "designated",
        0x15 => "vf resizable",
        _ => "no such name",
    };
    out.check(c(24), has(t, words) && !has(t, &[not]), || format!("message {t:?} does not name the structure"));
}

/// Judge one extended structure; `d` starts at its own 4-byte header.
fn ext_one(
    out: &mut Out,
    p: u16,
    id: u16,
    d: &[u8],
    got: &Result<ExtendedCapability, ExtendedCapabilityError>,
) -> bool {
    let g = ext_group(id);
    if id < 0x100 {
        out.structure(0x100 + id as u32, d, got.is_ok());
    }
    match got {
        Ok(cap) => {
            if cap.offset != p {
                out.miss(c(4), || format!("structure at {p:03x}h reported at {:03x}h", cap.offset));
                return false;
            }
            if ext_kind_id(&cap.kind) != id as u32 {
                out.miss(c(4) | g, || format!("id {id:04x}h at {p:03x}h reported as {:?}", cap.kind));
                return false;
            }
            out.eq(c(4), "version", &cap.version, &r32(d, 0).b(19, 16));
            out.eq(c(4), "id()", &cap.id(), &id);
        }
        Err(e) => match ext_err_at(id, e) {
            Some(l) if l == p => {
                if out.mask & c(24) != 0 {
                    let t = Text::of(e);
                    let mut loc = Text { b: [0; 256], n: 0 };
                    let _ = write!(loc, "[{p:03x}]");
                    out.check(c(24), t.str().contains(loc.str()), || {
                        format!("message {:?} does not name {p:03x}h", t.str())
                    });
                    ext_err_name(out, id, t.str());
                    let cause = ext_cause(e);
                    out.check(c(24), t.str().contains(cause.str()), || format!("message {:?} does not say {:?}", t.str(), cause.str()));
                }
            }
            _ => out.miss(c(24) | c(4), || format!("id {id:04x}h at {p:03x}h reported as {e:?}")),
        },
    }
    macro_rules! opt {
        ($variant:ident, $model:expr) => {{
            let m = $model;
            match (got, &m) {
                (Ok(ExtendedCapability { kind: E::$variant(v), .. }), Some(m)) => {
                    out.eq(g, concat!(stringify!($variant)), v, m);
                }
                (Err(_), None) => out.events += 1,
                _ => disagree(out, g, 0x100 + id as u32, d, got, m.is_some()),
            }
            m
        }};
    }
    macro_rules! res {
        ($variant:ident, $model:expr, $v:ident, $m:ident, $body:block) => {{
            let m = $model;
            match (got, &m) {
                (Ok(ExtendedCapability { kind: E::$variant($v), .. }), Ok($m)) => $body,
                (Err(ExtendedCapabilityError::$variant { source, .. }), Err(m)) => {
                    out.eq(c(24), concat!(stringify!($variant), " error"), source, m);
                }
                (Err(_), Err(m)) => {
                    out.miss(c(24), || format!("observed {got:?}, reference says {m:?}"))
                }
                _ => disagree(out, g, 0x100 + id as u32, d, got, m.is_ok()),
            }
        }};
    }
    // `Some(v)` when the library decoded what the model says is decodable
    macro_rules! parts {
        ($variant:ident, $model:expr) => {{
            let m = $model;
            match (got, m) {
                (Ok(ExtendedCapability { kind: E::$variant(v), .. }), Some(m)) => Some((v, m)),
                (Err(_), None) => {
                    out.events += 1;
                    None
                }
                (_, m) => {
                    disagree(out, g, 0x100 + id as u32, d, got, m.is_some());
                    None
                }
            }
        }};
    }
    match id {
        0x01 => res!(AdvancedErrorReporting, ext1::aer::decode(d), v, m, {
            out.eq(g, "AER", v, m);
            let there = |a: &ecaps::AdvancedErrorReporting| {
                [
                    a.root_error_command.is_some(),
                    a.root_error_status.is_some(),
                    a.error_source_identification.is_some(),
                    a.tlp_prefix_log.is_some(),
                ]
            };
            out.eq(g | c(20), "AER registers present", &there(v), &there(m));
        }),
        0x02 => {
            if let Some((v, m)) = parts!(VirtualChannel, ext2::vc::decode(d)) {
                virtual_channel(out, d, v, &m);
            }
        }
        0x09 => {
            if let Some((v, m)) = parts!(VirtualChannelMfvcPresent, ext2::vc::decode(d)) {
                virtual_channel(out, d, v, &m);
            }
        }
        0x03 => drop(opt!(DeviceSerialNumber, ext1::dsn(d))),
        0x04 => {
            let m = opt!(PowerBudgeting, ext2::power_budgeting_(d));
            if let (Ok(ExtendedCapability { kind: E::PowerBudgeting(v), .. }), Some(_)) = (got, m) {
                let e = [1.0, 0.1, 0.01, 0.001][r32(d, 8).f(9, 8) as usize];
                let x = v.data.data_scale.multiplier();
                out.check(c(25) | g, (x - e).abs() < e * 1e-9, || {
                    format!("data scale multiplier {x}, register says {e}")
                });
            }
        }
        0x05 => res!(RootComplexLinkDeclaration, ext2::rcld::decode(d), v, m, {
            out.eq(g, "element self description", &v.element_self_description, &m.esd);
            out.eq(g | c(20), "link entries state", &v.link_entries.state, &m.state);
            seq(out, g | c(20), "link entries", v.link_entries.clone(), &m.entries);
        }),
        0x06 => drop(opt!(RootComplexInternalLinkControl, ext2::rcilc(d))),
        0x07 => drop(opt!(RootComplexEventCollectorEndpointAssociation, ext2::rcec(d))),
        0x08 => res!(MultifunctionVirtualChannel, ext2::mfvc::decode(d), v, m, {
            mfvc(out, v, m);
        }),
        0x0a => drop(opt!(RootComplexRegisterBlockHeader, ext2::rcrb(d))),
        0x0b => {
            let m = opt!(VendorSpecificExtendedCapability, ext2::vsec(d));
            if let (Ok(ExtendedCapability { kind: E::VendorSpecificExtendedCapability(v), .. }), Some(m)) = (got, m) {
                out.eq(g | c(20), "VSEC data present", &v.registers, &m.registers);
            }
        }
        0x0c => drop(opt!(ConfigurationAccessCorrelation, ext1::cac(d))),
        0x0d => {
            if let Some((v, (cap, ctl))) = parts!(AccessControlServices, ext1::acs::regs(d)) {
                out.eq(g, "ACS capability", &v.acs_capability, &cap);
                out.eq(g, "ACS control", &v.acs_control, &ctl);
                let bits = ext1::acs::vector(d).unwrap_or_default();
                seq(out, g | c(20), "egress control vector", v.egress_control_vectors(), &bits);
            }
        }
        0x0e => drop(opt!(AlternativeRoutingIdInterpretation, ext1::ari(d))),
        0x0f => drop(opt!(AddressTranslationServices, ext1::ats(d))),
        0x10 => {
            if let Some((v, m)) = parts!(SingleRootIoVirtualization, ext2::sriov::decode(d)) {
                out.eq(g, "SR-IOV capabilities", &v.sriov_capabilities, &m.caps);
                out.eq(g, "SR-IOV control", &v.sriov_control, &m.ctl);
                out.eq(g, "SR-IOV status", &v.sriov_status, &m.st);
                out.eq(g, "VF counts", &[v.initial_vfs, v.total_vfs, v.num_vfs], &m.initial_total_num);
                out.eq(g, "dependency link", &v.function_dependency_link, &m.fdl);
                out.eq(
                    g,
                    "VF offset, stride, device",
                    &[v.first_vf_offset, v.vf_stride, v.vf_device_id],
                    &m.offset_stride_id,
                );
                out.eq(g, "page sizes", &v.page_sizes, &m.page);
                out.eq(g | c(6), "VF BAR registers", &v.base_addresses.orig(), &m.bars);
                seq(out, g | c(6), "VF BARs", v.base_addresses.clone(), &mh::bars(&m.bars));
                out.eq(g, "migration array offset", &v.vf_migration_state_array_offset, &m.msao);
            }
        }
        0x12 => {
            let m = opt!(Multicast, ext1::multicast_(d));
            if let (Ok(ExtendedCapability { kind: E::Multicast(v), .. }), Some(m)) = (got, m) {
                out.eq(g | c(20), "overlay BAR present", &v.mc_overlay_bar.is_some(), &m.mc_overlay_bar.is_some());
            }
        }
        0x13 => drop(opt!(PageRequestInterface, ext2::pri(d))),
        0x15 => res!(ResizableBar, ext2::rebar::decode(d), v, m, { rebar(out, d, v, m) }),
        0x24 => res!(VfResizableBar, ext2::rebar::decode(d), v, m, { rebar(out, d, v, m) }),
        0x16 => res!(DynamicPowerAllocation, ext1::dpa::decode(d), v, m, {
            out.eq(g, "DPA", v, m);
            out.eq(
                g | c(20),
                "DPA allocation array",
                &v.dpa_power_allocation_array,
                &m.dpa_power_allocation_array,
            );
        }),
        0x17 => {
            let m = opt!(TphRequester, ext2::tph(d));
            if let (Ok(ExtendedCapability { kind: E::TphRequester(v), .. }), Some(m)) = (got, m) {
                let (a, b) = (&v.tph_requester_capability.st_table, &m.tph_requester_capability.st_table);
                out.eq(g | c(20), "ST table", a, b);
            }
        }
        0x18 => {
            let m = opt!(LatencyToleranceReporting, ext1::ltr(d));
            if let (Ok(ExtendedCapability { kind: E::LatencyToleranceReporting(v), .. }), Some(_)) = (got, m) {
                for (x, r) in [(&v.max_snoop_latency, r16(d, 4)), (&v.max_no_snoop_latency, r16(d, 6))] {
                    out.eq(c(25) | g, "latency in ns", &x.value(), &latency(r.f(9, 0), r.f(12, 10)));
                }
            }
        }
        0x19 => {
            if let Some((v, (l3, le))) = parts!(SecondaryPciExpress, ext2::sec::regs(d)) {
                out.eq(g, "link control 3", &v.link_control_3, &l3);
                out.eq(g, "lane errors", &v.lane_error_status, &le);
                for w in LANES {
                    let have = (d.len() - 0xc) / 2;
                    let e: Vec<_> = (0..have.min(w as usize))
                        .map(|i| {
                            ecaps::secondary_pci_express::LaneEqualizationControl::from(u16at(d, 0xc + 2 * i))
                        })
                        .collect();
                    seq(out, g | c(20), "equalization lanes", v.equalization_control_lanes(pcie::width(w)), &e);
                }
            }
        }
        0x1a => res!(ProtocolMultiplexing, ext2::pmux::decode(d), v, m, {
            out.eq(g, "PMUX capability", &v.pmux_capability, &m.cap);
            out.eq(g, "PMUX control", &v.pmux_control, &m.ctl);
            out.eq(g, "PMUX status", &v.pmux_status, &m.st);
            seq(out, g | c(20), "PMUX protocol array", v.pmux_protocol_array.clone(), &m.entries);
        }),
        0x1b => drop(opt!(ProcessAddressSpaceId, ext2::pasid(d))),
        0x1c => drop(opt!(LnRequester, ext1::lnr(d))),
        0x1d => res!(DownstreamPortContainment, ext1::dpc::decode(d), v, m, {
            out.eq(g, "DPC", v, m);
            let there = |a: &ecaps::DownstreamPortContainment| {
                let r = a.rp_extensions.as_ref();
                [
                    r.is_some(),
                    r.map_or(false, |r| r.rp_pio_impspec_log.is_some()),
                    r.map_or(false, |r| r.rp_pio_tlp_prefix_log.is_some()),
                ]
            };
            out.eq(g | c(20), "DPC registers present", &there(v), &there(m));
            let s = r16(d, 8);
            let (r, x) = (s.b(2, 1), s.b(6, 5));
            out.eq(c(25) | g, "trigger reason", &v.dpc_status.dpc_trigger_reason.value(), &r);
            let x = if r == 3 { x } else { 0 };
            out.eq(c(25) | g, "reason extension", &v.dpc_status.dpc_trigger_reason.extension_value(), &x);
        }),
        0x1e => {
            let m = opt!(L1PmSubstates, ext1::l1pm::decode(d));
            if let (Ok(ExtendedCapability { kind: E::L1PmSubstates(v), .. }), Some(_)) = (got, m) {
                let t = c(25) | g;
                let us = |val: u64, s: u64| [Some(2), Some(10), Some(100), None][s as usize].map(|k: usize| k * val as usize);
                let (a, b, k) = (r32(d, 4), r32(d, 0xc), r32(d, 8));
                out.eq(t, "port T power on", &v.l1_pm_substates_capabilities.port_t_power_on.value(), &us(a.f(23, 19), a.f(17, 16)));
                out.eq(t, "T power on", &v.l1_pm_substates_control_2.t_power_on.value(), &us(b.f(7, 3), b.f(1, 0)));
                out.eq(t, "LTR threshold", &v.l1_pm_substates_control_1.ltr_l1_2_threshold.value(), &latency(k.f(25, 16), k.f(31, 29)));
            }
        }
        0x1f => drop(opt!(PrecisionTimeMeasurement, ext2::ptm(d))),
        0x20 => drop(opt!(PciExpressOverMphy, ext2::mpcie(d))),
        0x21 => drop(opt!(FrsQueuing, ext1::frs(d))),
        0x22 => {
            let m = opt!(ReadinessTimeReporting, ext2::rtr(d));
            if let (Ok(ExtendedCapability { kind: E::ReadinessTimeReporting(v), .. }), Some(_)) = (got, m) {
                let (a, b) = (r32(d, 4), r32(d, 8));
                for (x, r, lo) in [
                    (&v.reset_time, a, 0),
                    (&v.dl_up_time, a, 12),
                    (&v.flr_time, b, 0),
                    (&v.d3hot_to_d0_time, b, 12),
                ] {
                    let e = r.f(lo + 8, lo) * 32u64.pow(r.f(lo + 11, lo + 9) as u32);
                    out.eq(c(25) | g, "readiness time", &x.actual_time_value(), &e);
                }
            }
        }
        0x23 => res!(DesignatedVendorSpecificExtendedCapability, ext2::dvsec::decode(d), v, m, {
            out.eq(g, "DVSEC vendor", &v.dvsec_vendor_id, &m.vid);
            out.eq(g, "DVSEC revision", &v.dvsec_revision, &m.rev);
            out.eq(g, "DVSEC length", &v.dvsec_length, &m.len);
            out.eq(g, "DVSEC id", &v.dvsec_id, &m.id);
            out.eq(g | c(20), "DVSEC payload", &ext2::dvsec::payload(&v.dvsec_type), &m.payload);
        }),
        _ => {
            if let Err(e) = got {
                out.miss(c(4) | c(24), || format!("id {id:04x}h needs no data, observed {e:?}"));
            }
        }
    }
    true
}

const LANES: [u8; 9] = [0, 1, 2, 4, 8, 12, 16, 32, 63];

fn latency(v: u64, scale: u64) -> usize {
    if scale > 5 {
        0
    } else {
        v as usize * 32usize.pow(scale as u32)
    }
}

fn rebar(
    out: &mut Out,
    d: &[u8],
    v: &ecaps::ResizableBar,
    m: &[ecaps::resizable_bar::ResizableBarEntry],
) {
    seq(out, c(16) | c(20), "resizable BARs", v.clone(), m);
    for (i, e) in v.clone().take(m.len()).enumerate() {
        for p in [0, 16, 19, 20, 21, 25, 31, 32, 36, 40, 46, 47, 48, 49, 55, 62, 63, 64, 65, 1000, usize::MAX] {
            out.eq(
                c(25) | c(16),
                "support of a BAR size",
                &(p, e.is_function_supports_power_of_two(p)),
                &(p, ext2::rebar::supports(d, i, p)),
            );
        }
    }
}

/// Bytes of an arbitration table placed at `off16` * 16 of the structure; absent or cut off: none.
fn table<'a>(d: &'a [u8], off16: u64, len: usize) -> &'a [u8] {
    let o = off16 as usize * 16;
    if o == 0 || o + len > d.len() {
        &[]
    } else {
        &d[o..o + len]
    }
}

pub fn port_entry(v: u8) -> ecaps::virtual_channel::PortArbitrationTableEntry {
    ecaps::virtual_channel::PortArbitrationTable::new(&[v], 8).next().expect("LIB: no entry from a table of one 8-bit entry")
}
pub fn function_entry(v: u8) -> ecaps::multifunction_virtual_channel::FunctionArbitrationTableEntry {
    ecaps::multifunction_virtual_channel::FunctionArbitrationTable::new(&[v], 8).next().expect("LIB: no entry from a table of one 8-bit entry")
}

fn virtual_channel(out: &mut Out, d: &[u8], v: &ecaps::VirtualChannel, m: &ext2::vc::Vc) {
    let g = c(17);
    out.eq(g, "VC capability 1", &v.port_vc_capability_1, &m.cap1);
    out.eq(g, "VC capability 2", &v.port_vc_capability_2, &m.cap2);
    out.eq(g, "VC control", &v.port_vc_control, &m.ctl);
    out.eq(g, "VC status", &v.port_vc_status, &m.st);
    let bits = 1usize << r32(d, 4).f(11, 10);
    out.eq(g | c(25), "entry size", &v.port_vc_capability_1.port_arbitration_table_entry_size.bits(), &bits);
    let phases = ext2::vc::vc_phases(r16(d, 0xc).f(3, 1));
    out.eq(g | c(25), "VC phases", &v.port_vc_control.vc_arbitration_select.vc_arbitration_table_length(), &phases);
    let t = table(d, r32(d, 8).f(31, 24), phases / 2);
    seq(out, g | c(20), "VC arbitration table", v.vc_arbitration_table(), &ext2::vc::vc_table(t));
    let evcs: Vec<_> = m.evcs.iter().cloned().map(Some).collect();
    seq(out, g | c(20), "VC resources", v.extended_virtual_channels().map(|r| r.ok()), &evcs);
    for (i, e) in m.evcs.iter().enumerate() {
        let o = 0x10 + 12 * i;
        let n = ext2::vc::port_phases(r32(d, o + 4).f(19, 17));
        out.eq(g | c(25), "port phases", &e.vc_resource_control.port_arbitration_select.port_arbitration_table_length(), &n);
        let t = table(d, r32(d, o).f(31, 24), n * bits / 8);
        let exp: Vec<_> = ext2::vc::entries(t, bits).into_iter().map(port_entry).collect();
        seq(out, g | c(20), "port arbitration table", v.port_arbitration_table(e), &exp);
    }
}

fn mfvc(out: &mut Out, v: &ecaps::MultifunctionVirtualChannel, m: &ext2::mfvc::Mfvc) {
    let g = c(17);
    out.eq(g, "MFVC capability 1", &v.port_vc_capability_1, &m.cap1);
    out.eq(g, "MFVC capability 2", &v.port_vc_capability_2, &m.cap2);
    out.eq(g, "MFVC control", &v.port_vc_control, &m.ctl);
    out.eq(g, "MFVC status", &v.port_vc_status, &m.st);
    out.eq(
        g | c(25),
        "MFVC entry size",
        &v.port_vc_capability_1.function_arbitration_table_entry_size.bits(),
        &(1usize << m.cap1.function_arbitration_table_entry_size.0),
    );
    out.eq(g | c(20), "MFVC table presence", &v.vc_arbitration_table.is_some(), &m.table.is_some());
    if let (Some(t), Some(e)) = (&v.vc_arbitration_table, &m.table) {
        seq(out, g | c(20), "MFVC arbitration table", t.clone(), e);
    }
    let mut it = v.extended_virtual_channels.clone();
    for (i, (cap, ctl, st, fat)) in m.evcs.iter().enumerate() {
        let Some(e) = it.next() else {
            return out.miss(g | c(20), || format!("MFVC resources end after {i} of {}", m.evcs.len()));
        };
        out.eq(g, "MFVC resource capability", &e.vc_resource_capability, cap);
        out.eq(g, "MFVC resource control", &e.vc_resource_control, ctl);
        out.eq(g, "MFVC resource status", &e.vc_resource_status, st);
        out.eq(g | c(20), "function table presence", &e.function_arbitration_table.is_some(), &fat.is_some());
        if let (Some(t), Some(x)) = (e.function_arbitration_table, fat) {
            let exp: Vec<_> = x.iter().map(|v| function_entry(*v)).collect();
            seq(out, g | c(20), "function arbitration table", t, &exp);
        }
    }
    for _ in 0..2 {
        if it.next().is_some() {
            return out.miss(g | c(2), || format!("MFVC resources continue past {}", m.evcs.len()));
        }
    }
}

// ------------------------------------------------------------------ header

fn bars_of<const N: usize>(out: &mut Out, b: &BaseAddresses<N>, regs: &[u32]) {
    out.eq(c(6), "BAR registers", &b.orig().to_vec(), &regs.to_vec());
    seq(out, c(6), "BARs", b.clone(), &mh::bars(regs));
    // reading them does not consume the registers
    let mut it = b.clone();
    it.next();
    out.eq(c(6) | c(23), "BAR registers after iteration", &it.orig().to_vec(), &regs.to_vec());
}

/// Judge the decoding of a 64-byte header.
pub fn header(out: &mut Out, d: &[u8; 64]) {
    let m = mh::header(d);
    let h = Header::from(*d);
    shown(out, &h);
    out.structure(0x200 + (d[0xe] & 0x7f).min(3) as u32, d, true);
    let t = c(5);
    out.eq(t, "vendor", &h.vendor_id, &m.vendor_id);
    out.eq(t, "device", &h.device_id, &m.device_id);
    out.eq(t, "command", &h.command, &m.command);
    out.eq(t, "status", &h.status, &m.status);
    out.eq(t, "revision", &h.revision_id, &m.revision_id);
    out.eq(t | c(8), "class code", &h.class_code, &m.class_code);
    out.eq(t, "cache line size", &h.cache_line_size, &m.cache_line_size);
    out.eq(t, "latency timer", &h.latency_timer, &m.latency_timer);
    out.eq(t, "multi-function", &h.is_multi_function, &m.is_multi_function);
    out.eq(t, "BIST", &h.bist, &m.bist);
    out.eq(t | c(3), "capabilities pointer", &h.capabilities_pointer, &m.capabilities_pointer);
    out.eq(t, "interrupt line", &h.interrupt_line, &m.interrupt_line);
    out.eq(t, "interrupt pin", &h.interrupt_pin, &m.interrupt_pin);
    let regs = mh::bar_regs(d);
    match (&h.header_type, &m.header_type) {
        (HeaderType::Normal(a), HeaderType::Normal(b)) => {
            bars_of(out, &a.base_addresses, &regs);
            out.eq(t, "CIS pointer", &a.cardbus_cis_pointer, &b.cardbus_cis_pointer);
            out.eq(t, "subsystem vendor", &a.sub_vendor_id, &b.sub_vendor_id);
            out.eq(t, "subsystem device", &a.sub_device_id, &b.sub_device_id);
            out.eq(c(7), "expansion ROM", &a.expansion_rom, &b.expansion_rom);
            out.eq(t, "min grant", &a.min_grant, &b.min_grant);
            out.eq(t, "max latency", &a.max_latency, &b.max_latency);
        }
        (HeaderType::Bridge(a), HeaderType::Bridge(b)) => {
            bars_of(out, &a.base_addresses, &regs);
            out.eq(t, "primary bus", &a.primary_bus_number, &b.primary_bus_number);
            out.eq(t, "secondary bus", &a.secondary_bus_number, &b.secondary_bus_number);
            out.eq(t, "subordinate bus", &a.subordinate_bus_number, &b.subordinate_bus_number);
            out.eq(t, "secondary latency", &a.secondary_latency_timer, &b.secondary_latency_timer);
            out.eq(c(7), "I/O window", &a.io_address_range, &b.io_address_range);
            out.eq(t, "secondary status", &a.secondary_status, &b.secondary_status);
            out.eq(c(7), "memory base", &a.memory_base, &b.memory_base);
            out.eq(c(7), "memory limit", &a.memory_limit, &b.memory_limit);
            out.eq(c(7), "prefetchable window", &a.prefetchable_memory, &b.prefetchable_memory);
            out.eq(c(7), "expansion ROM", &a.expansion_rom, &b.expansion_rom);
            out.eq(t, "bridge control", &a.bridge_control, &b.bridge_control);
        }
        (HeaderType::Cardbus(a), HeaderType::Cardbus(b)) => {
            bars_of(out, &a.base_addresses, &regs);
            out.eq(t, "secondary status", &a.secondary_status, &b.secondary_status);
            out.eq(t, "PCI bus", &a.pci_bus_number, &b.pci_bus_number);
            out.eq(t, "CardBus bus", &a.cardbus_bus_number, &b.cardbus_bus_number);
            out.eq(t, "subordinate bus", &a.subordinate_bus_number, &b.subordinate_bus_number);
            out.eq(t, "CardBus latency", &a.cardbus_latency_timer, &b.cardbus_latency_timer);
            out.eq(c(7), "memory base 0", &a.memory_base_address_0, &b.memory_base_address_0);
            out.eq(c(7), "memory limit 0", &a.memory_limit_address_0, &b.memory_limit_address_0);
            out.eq(c(7), "memory base 1", &a.memory_base_address_1, &b.memory_base_address_1);
            out.eq(c(7), "memory limit 1", &a.memory_limit_address_1, &b.memory_limit_address_1);
            out.eq(c(7), "I/O window 0", &a.io_access_address_range_0, &b.io_access_address_range_0);
            out.eq(c(7), "I/O window 1", &a.io_access_address_range_1, &b.io_access_address_range_1);
            out.eq(t, "bridge control", &a.bridge_control, &b.bridge_control);
            out.check(
                t,
                a.subsystem_vendor_id.is_none()
                    && a.subsystem_device_id.is_none()
                    && a.legacy_mode_base_address.is_none()
                    && a.reserved.is_none(),
                || format!("optional registers are set without having been read: {a:?}"),
            );
        }
        (HeaderType::Reserved(a), HeaderType::Reserved(b)) => out.eq(t, "reserved layout", a, b),
        (a, b) => out.miss(t | c(6) | c(7), || format!("layout: observed {a:?}, reference says {b:?}")),
    }
    let ty = d[0xe] & 0x7f;
    out.eq(t | c(22), "layout number", &u8::from(&h.header_type), &ty);
    out.eq(t | c(22), "layout number", &u8::from(h.header_type.clone()), &ty);
    let rom = match ty {
        0 => Some(mh::rom(u32at(d, 0x30))),
        1 => Some(mh::rom(u32at(d, 0x38))),
        _ => None,
    };
    out.eq(c(25) | c(7), "expansion_rom()", &h.header_type.expansion_rom(), &rom);
}

/// Optional CardBus registers (40h on).
pub fn cardbus_optional(out: &mut Out, d: &[u8; 64], rest: &[u8]) {
    let HeaderType::Cardbus(m) = mh::header(d).header_type else { return };
    let mut v: Cardbus = m.clone();
    let r = v.try_set_optional_registers(rest);
    let t = c(25) | c(5) | c(20);
    out.eq(t, "optional registers readable", &r.is_ok(), &(rest.len() >= 0x40));
    let mut e = m;
    if rest.len() >= 0x40 {
        e.subsystem_vendor_id = Some(u16at(rest, 0));
        e.subsystem_device_id = Some(u16at(rest, 2));
        e.legacy_mode_base_address = Some(u32at(rest, 4));
        let mut b = [0; 0x38];
        b.copy_from_slice(&rest[8..0x40]);
        e.reserved = Some(b);
    }
    out.eq(t, "CardBus optional registers", &v, &e);
}
