//! Reference decoding of the 64-byte predefined header (PCI 3.0 ch. 6, P2P bridge 1.2, PC Card).
use super::*;
use pcics::header::*;

pub fn command(v: u16) -> Command {
    let r = Reg(v as u64);
    Command {
        io_space: r.t(0),
        memory_space: r.t(1),
        bus_master: r.t(2),
        special_cycles: r.t(3),
        memory_write_and_invalidate_enable: r.t(4),
        vga_palette_snoop: r.t(5),
        parity_error_response: r.t(6),
        stepping: r.t(7),
        serr_enable: r.t(8),
        fast_back_to_back_enable: r.t(9),
        interrupt_disable: r.t(10),
        reserved: r.b(15, 11),
    }
}

pub fn status<const T: char>(v: u16) -> Status<T> {
    let r = Reg(v as u64);
    Status {
        reserved: r.b(2, 0),
        interrupt_status: r.t(3),
        capabilities_list: r.t(4),
        is_66mhz_capable: r.t(5),
        user_definable_features: r.t(6),
        fast_back_to_back_capable: r.t(7),
        master_data_parity_error: r.t(8),
        devsel_timing: [
            DevselTiming::Fast,
            DevselTiming::Medium,
            DevselTiming::Slow,
            DevselTiming::Undefined,
        ][r.f(10, 9) as usize],
        signaled_target_abort: r.t(11),
        received_target_abort: r.t(12),
        received_master_abort: r.t(13),
        system_error: r.t(14),
        detected_parity_error: r.t(15),
    }
}

pub fn bridge_control(v: u16) -> BridgeControl {
    let r = Reg(v as u64);
    BridgeControl {
        parity_error_response_enable: r.t(0),
        serr_enable: r.t(1),
        isa_enable: r.t(2),
        vga_enable: r.t(3),
        vga_16_enable: r.t(4),
        master_abort_mode: r.t(5),
        secondary_bus_reset: r.t(6),
        fast_back_to_back_enable: r.t(7),
        primary_discard_timer: r.t(8),
        secondary_discard_timer: r.t(9),
        discard_timer_status: r.t(10),
        discard_timer_serr_enable: r.t(11),
    }
}

pub fn cardbus_bridge_control(v: u16) -> CardbusBridgeControl {
    let r = Reg(v as u64);
    CardbusBridgeControl {
        parity_error_response_enable: r.t(0),
        serr_enable: r.t(1),
        isa_enable: r.t(2),
        vga_enable: r.t(3),
        master_abort_mode: r.t(5),
        cardbus_reset: r.t(6),
        ireq_int_enable: r.t(7),
        memory_0_prefetch_enable: r.t(8),
        memory_1_prefetch_enable: r.t(9),
        write_posting_enable: r.t(10),
    }
}

pub fn rom(v: u32) -> ExpansionRom {
    ExpansionRom {
        address: v & 0xffff_f800,
        reserved: ((v >> 1) & 0x3ff) as u16,
        is_enabled: v & 1 == 1,
    }
}

pub fn bist(v: u8) -> BuiltInSelfTest {
    BuiltInSelfTest {
        is_capable: v >> 7 == 1,
        is_running: (v >> 6) & 1 == 1,
        completion_code: v & 0x0f,
    }
}

pub fn pin(v: u8) -> InterruptPin {
    match v {
        0 => InterruptPin::Unused,
        1 => InterruptPin::IntA,
        2 => InterruptPin::IntB,
        3 => InterruptPin::IntC,
        4 => InterruptPin::IntD,
        v => InterruptPin::Reserved(v),
    }
}

/// I/O window behind a P2P bridge: registers 1Ch, 1Dh, 30h, 32h
pub fn io_range(b: u8, l: u8, bu: u16, lu: u16) -> BridgeIoAddressRange {
    type X = BridgeIoAddressRange;
    if b == 0 && l == 0 {
        return X::NotImplemented;
    }
    if b % 16 != l % 16 {
        return X::Malformed { base: b, limit: l };
    }
    match b % 16 {
        0 => X::IoAddr16 {
            base: (b / 16) as u16 * 0x1000,
            limit: (l / 16) as u16 * 0x1000,
        },
        1 => X::IoAddr32 {
            base: bu as u32 * 0x1_0000 + (b / 16) as u32 * 0x1000,
            limit: lu as u32 * 0x1_0000 + (l / 16) as u32 * 0x1000,
        },
        _ => X::Reserved { base: b, limit: l },
    }
}

/// Prefetchable window behind a P2P bridge: registers 24h, 26h, 28h, 2Ch
pub fn pref_range(b: u16, l: u16, bu: u32, lu: u32) -> BridgePrefetchableMemory {
    type X = BridgePrefetchableMemory;
    if b == 0 && l == 0 {
        return X::NotImplemented;
    }
    if b % 16 != l % 16 {
        return X::Malformed { base: b, limit: l };
    }
    match b % 16 {
        0 => X::MemAddr32 {
            base: (b / 16) as u32 * 0x10_0000,
            limit: (l / 16) as u32 * 0x10_0000,
        },
        1 => X::MemAddr64 {
            base: bu as u64 * 0x1_0000_0000 + (b / 16) as u64 * 0x10_0000,
            limit: lu as u64 * 0x1_0000_0000 + (l / 16) as u64 * 0x10_0000,
        },
        _ => X::Reserved { base: b, limit: l },
    }
}

/// CardBus I/O window: two dwords (base, limit)
pub fn cb_io(base: u32, limit: u32) -> IoAccessAddressRange {
    type X = IoAccessAddressRange;
    let (b, l) = (base & !3, limit & !3);
    match base & 3 {
        0 => X::Addr16Bit {
            base: b as u16,
            limit: l as u16,
        },
        1 => X::Addr32Bit { base: b, limit: l },
        c => X::Unknown {
            io_address_capability: c as u8,
            base_lower: b as u16,
            base_upper: (base >> 16) as u16,
            limit_lower: l as u16,
            limit_upper: (limit >> 16) as u16,
        },
    }
}

/// Reference BAR walk
pub fn bars(regs: &[u32]) -> Vec<BaseAddress> {
    use BaseAddressType as T;
    let mut out = vec![];
    let mut i = 0;
    while i < regs.len() {
        let v = regs[i];
        let region = i;
        i += 1;
        if v == 0 {
            continue;
        }
        let base_address_type = if v % 2 == 1 {
            T::IoSpace {
                base_address: v - v % 4,
            }
        } else {
            let prefetchable = (v >> 3) & 1 == 1;
            let base_address = v - v % 16;
            match (v >> 1) & 3 {
                0 => T::MemorySpace32 {
                    prefetchable,
                    base_address,
                },
                1 => T::MemorySpaceBelow1M {
                    prefetchable,
                    base_address,
                },
                2 => {
                    if i < regs.len() {
                        let hi = regs[i] as u64;
                        i += 1;
                        T::MemorySpace64 {
                            prefetchable,
                            base_address: hi * 0x1_0000_0000 + base_address as u64,
                        }
                    } else {
                        T::MemorySpace64Broken { prefetchable }
                    }
                }
                _ => T::MemorySpaceReserved {
                    prefetchable,
                    base_address,
                },
            }
        };
        out.push(BaseAddress {
            region,
            base_address_type,
        });
    }
    out
}

pub fn header(d: &[u8; 64]) -> Header {
    let d = &d[..];
    let ht = d[0x0e] & 0x7f;
    let (cap, line, ipin, header_type) = match ht {
        0 => {
            let mut b = [0u32; 6];
            for (i, x) in b.iter_mut().enumerate() {
                *x = u32at(d, 0x10 + 4 * i);
            }
            (
                d[0x34],
                d[0x3c],
                d[0x3d],
                HeaderType::Normal(Normal {
                    base_addresses: BaseAddresses::new(b),
                    cardbus_cis_pointer: u32at(d, 0x28),
                    sub_vendor_id: u16at(d, 0x2c),
                    sub_device_id: u16at(d, 0x2e),
                    expansion_rom: rom(u32at(d, 0x30)),
                    min_grant: d[0x3e],
                    max_latency: d[0x3f],
                }),
            )
        }
        1 => (
            d[0x34],
            d[0x3c],
            d[0x3d],
            HeaderType::Bridge(Bridge {
                base_addresses: BaseAddresses::new([u32at(d, 0x10), u32at(d, 0x14)]),
                primary_bus_number: d[0x18],
                secondary_bus_number: d[0x19],
                subordinate_bus_number: d[0x1a],
                secondary_latency_timer: d[0x1b],
                io_address_range: io_range(d[0x1c], d[0x1d], u16at(d, 0x30), u16at(d, 0x32)),
                secondary_status: status(u16at(d, 0x1e)),
                memory_base: u16at(d, 0x20),
                memory_limit: u16at(d, 0x22),
                prefetchable_memory: pref_range(
                    u16at(d, 0x24),
                    u16at(d, 0x26),
                    u32at(d, 0x28),
                    u32at(d, 0x2c),
                ),
                expansion_rom: rom(u32at(d, 0x38)),
                bridge_control: bridge_control(u16at(d, 0x3e)),
            }),
        ),
        2 => (
            d[0x14],
            d[0x3c],
            d[0x3d],
            HeaderType::Cardbus(Cardbus {
                base_addresses: BaseAddresses::new([u32at(d, 0x10)]),
                secondary_status: status(u16at(d, 0x16)),
                pci_bus_number: d[0x18],
                cardbus_bus_number: d[0x19],
                subordinate_bus_number: d[0x1a],
                cardbus_latency_timer: d[0x1b],
                memory_base_address_0: u32at(d, 0x1c),
                memory_limit_address_0: u32at(d, 0x20),
                memory_base_address_1: u32at(d, 0x24),
                memory_limit_address_1: u32at(d, 0x28),
                io_access_address_range_0: cb_io(u32at(d, 0x2c), u32at(d, 0x30)),
                io_access_address_range_1: cb_io(u32at(d, 0x34), u32at(d, 0x38)),
                bridge_control: cardbus_bridge_control(u16at(d, 0x3e)),
                subsystem_vendor_id: None,
                subsystem_device_id: None,
                legacy_mode_base_address: None,
                reserved: None,
            }),
        ),
        v => (0, 0, 0, HeaderType::Reserved(v)),
    };
    Header {
        vendor_id: u16at(d, 0),
        device_id: u16at(d, 2),
        command: command(u16at(d, 4)),
        status: status(u16at(d, 6)),
        revision_id: d[8],
        class_code: ClassCode {
            interface: d[9],
            sub: d[0x0a],
            base: d[0x0b],
        },
        cache_line_size: d[0x0c],
        latency_timer: d[0x0d],
        is_multi_function: d[0x0e] & 0x80 != 0,
        header_type,
        bist: bist(d[0x0f]),
        capabilities_pointer: cap & 0xfc,
        interrupt_line: line,
        interrupt_pin: pin(ipin),
    }
}

/// BAR registers as the header's own byte positions say
pub fn bar_regs(d: &[u8; 64]) -> Vec<u32> {
    let n = match d[0x0e] & 0x7f {
        0 => 6,
        1 => 2,
        2 => 1,
        _ => 0,
    };
    (0..n).map(|i| u32at(d, 0x10 + 4 * i)).collect()
}
