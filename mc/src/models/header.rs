//! Reference decoder of the type 0, 1 and 2 headers (PCI Local Bus 3.0, PCI bridge 1.2, PC Card).

pub mod header {
use crate::*;
use pcics::header::*;

pub fn m_command(v: u16) -> Command {
    Command {
        io_space: bit(v, 0),
        memory_space: bit(v, 1),
        bus_master: bit(v, 2),
        special_cycles: bit(v, 3),
        memory_write_and_invalidate_enable: bit(v, 4),
        vga_palette_snoop: bit(v, 5),
        parity_error_response: bit(v, 6),
        stepping: bit(v, 7),
        serr_enable: bit(v, 8),
        fast_back_to_back_enable: bit(v, 9),
        interrupt_disable: bit(v, 10),
        reserved: f8(v, 11, 15),
    }
}

pub fn m_bridge_control(v: u16) -> BridgeControl {
    BridgeControl {
        parity_error_response_enable: bit(v, 0),
        serr_enable: bit(v, 1),
        isa_enable: bit(v, 2),
        vga_enable: bit(v, 3),
        vga_16_enable: bit(v, 4),
        master_abort_mode: bit(v, 5),
        secondary_bus_reset: bit(v, 6),
        fast_back_to_back_enable: bit(v, 7),
        primary_discard_timer: bit(v, 8),
        secondary_discard_timer: bit(v, 9),
        discard_timer_status: bit(v, 10),
        discard_timer_serr_enable: bit(v, 11),
    }
}

pub fn m_cardbus_bridge_control(v: u16) -> CardbusBridgeControl {
    CardbusBridgeControl {
        parity_error_response_enable: bit(v, 0),
        serr_enable: bit(v, 1),
        isa_enable: bit(v, 2),
        vga_enable: bit(v, 3),
        master_abort_mode: bit(v, 5),
        cardbus_reset: bit(v, 6),
        ireq_int_enable: bit(v, 7),
        memory_0_prefetch_enable: bit(v, 8),
        memory_1_prefetch_enable: bit(v, 9),
        write_posting_enable: bit(v, 10),
    }
}

pub fn m_status<const T: char>(v: u16) -> Status<T> {
    Status {
        reserved: f8(v, 0, 2),
        interrupt_status: bit(v, 3),
        capabilities_list: bit(v, 4),
        is_66mhz_capable: bit(v, 5),
        user_definable_features: bit(v, 6),
        fast_back_to_back_capable: bit(v, 7),
        master_data_parity_error: bit(v, 8),
        devsel_timing: m_devsel_timing(f8(v, 9, 10)),
        signaled_target_abort: bit(v, 11),
        received_target_abort: bit(v, 12),
        received_master_abort: bit(v, 13),
        system_error: bit(v, 14),
        detected_parity_error: bit(v, 15),
    }
}

pub fn m_devsel_timing(v: u8) -> DevselTiming {
    match v {
        0b00 => DevselTiming::Fast,
        0b01 => DevselTiming::Medium,
        0b10 => DevselTiming::Slow,
        0b11 => DevselTiming::Undefined,
        _ => unreachable!(),
    }
}

pub fn m_interrupt_pin(v: u8) -> InterruptPin {
match v {
            0x00 => InterruptPin::Unused,
            0x01 => InterruptPin::IntA,
            0x02 => InterruptPin::IntB,
            0x03 => InterruptPin::IntC,
            0x04 => InterruptPin::IntD,
            n => InterruptPin::Reserved(n),
        }
}

pub fn m_built_in_self_test(v: u8) -> BuiltInSelfTest {
    BuiltInSelfTest { is_capable: bit(v, 7), is_running: bit(v, 6), completion_code: f8(v, 0, 3) }
}
pub fn m_expansion_rom(v: u32) -> ExpansionRom {
    ExpansionRom { is_enabled: bit(v, 0), reserved: f16(v, 1, 10), address: v & 0xffff_f800 }
}

/// Base addresses in use, in register order. A zero register is unused; the register after a
/// 64-bit memory address is its upper half.
pub fn bars(regs: &[u32]) -> Vec<BaseAddress> {
    use BaseAddressType as T;
    let mut out = vec![];
    let mut i = 0;
    while i < regs.len() {
        let (region, v) = (i, regs[i]);
        i += 1;
        if v == 0 { continue; }
        let prefetchable = bit(v, 3);
        let base_address = v / 16 * 16;
        let base_address_type = if bit(v, 0) {
            T::IoSpace { base_address: v / 4 * 4 }
        } else {
            match f8(v, 1, 2) {
                0 => T::MemorySpace32 { prefetchable, base_address },
                1 => T::MemorySpaceBelow1M { prefetchable, base_address },
                2 => {
                    i += 1;
                    match regs.get(i - 1) {
                        Some(&hi) => T::MemorySpace64 { prefetchable, base_address: (hi as u64) << 32 | base_address as u64 },
                        None => T::MemorySpace64Broken { prefetchable },
                    }
                }
                _ => T::MemorySpaceReserved { prefetchable, base_address },
            }
        };
        out.push(BaseAddress { region, base_address_type });
    }
    out
}
pub fn regs<const N: usize>(d: &[u8], o: usize) -> [u32; N] {
    core::array::from_fn(|i| u32at(d, o + 4 * i))
}
/// The registers themselves, the decoded list, and that the list stays ended
pub fn same_bars<const N: usize>(real: &BaseAddresses<N>, want: [u32; N]) -> Result<(), String> {
    same(&want, &real.orig())?;
    let mut it = real.clone();
    let mut list: Vec<BaseAddress> = it.by_ref().take(N + 2).collect();
    if it.next().is_some() || it.next().is_some() { list.clear(); return Err("base addresses go on after the end".into()); }
    same(&bars(&want), &list)?;
    // iterating does not consume the registers
    same(&want, &it.orig())
}

pub fn io_window(base: u8, limit: u8, base_hi: u16, limit_hi: u16) -> BridgeIoAddressRange {
    use BridgeIoAddressRange as R;
    let addr = |lo: u8, hi: u16| (hi as u32) << 16 | (lo as u32 >> 4) << 12;
    match (base & 0xf, limit & 0xf) {
        (b, l) if b != l => R::Malformed { base, limit },
        (0, _) if base == 0 && limit == 0 => R::NotImplemented,
        (0, _) => R::IoAddr16 { base: addr(base, 0) as u16, limit: addr(limit, 0) as u16 },
        (1, _) => R::IoAddr32 { base: addr(base, base_hi), limit: addr(limit, limit_hi) },
        _ => R::Reserved { base, limit },
    }
}
pub fn prefetchable_window(base: u16, limit: u16, base_hi: u32, limit_hi: u32) -> BridgePrefetchableMemory {
    use BridgePrefetchableMemory as R;
    let addr = |lo: u16, hi: u32| (hi as u64) << 32 | (lo as u64 >> 4) << 20;
    match (base & 0xf, limit & 0xf) {
        (b, l) if b != l => R::Malformed { base, limit },
        (0, _) if base == 0 && limit == 0 => R::NotImplemented,
        (0, _) => R::MemAddr32 { base: addr(base, 0) as u32, limit: addr(limit, 0) as u32 },
        (1, _) => R::MemAddr64 { base: addr(base, base_hi), limit: addr(limit, limit_hi) },
        _ => R::Reserved { base, limit },
    }
}
pub fn io_access(w: [u16; 4]) -> IoAccessAddressRange {
    use IoAccessAddressRange as R;
    let [base_lower, base_upper, limit_lower, limit_upper] = [w[0] & !3, w[1], w[2] & !3, w[3]];
    match w[0] & 3 {
        0 => R::Addr16Bit { base: base_lower, limit: limit_lower },
        1 => R::Addr32Bit {
            base: (base_upper as u32) << 16 | base_lower as u32,
            limit: (limit_upper as u32) << 16 | limit_lower as u32,
        },
        c => R::Unknown { io_address_capability: c as u8, base_lower, base_upper, limit_lower, limit_upper },
    }
}
fn words(d: &[u8], o: usize) -> [u16; 4] {
    core::array::from_fn(|i| u16at(d, o + 2 * i))
}

pub fn expect(d: &[u8]) -> Option<Header> {
    if d.len() < 0x40 { return None; }
    let layout = d[0x0e] & 0x7f;
    let header_type = match layout {
        0 => HeaderType::Normal(Normal {
            base_addresses: BaseAddresses::new(regs(d, 0x10)),
            cardbus_cis_pointer: u32at(d, 0x28),
            sub_vendor_id: u16at(d, 0x2c),
            sub_device_id: u16at(d, 0x2e),
            expansion_rom: m_expansion_rom(u32at(d, 0x30)),
            min_grant: d[0x3e],
            max_latency: d[0x3f],
        }),
        1 => HeaderType::Bridge(Bridge {
            base_addresses: BaseAddresses::new(regs(d, 0x10)),
            primary_bus_number: d[0x18],
            secondary_bus_number: d[0x19],
            subordinate_bus_number: d[0x1a],
            secondary_latency_timer: d[0x1b],
            io_address_range: io_window(d[0x1c], d[0x1d], u16at(d, 0x30), u16at(d, 0x32)),
            secondary_status: m_status(u16at(d, 0x1e)),
            memory_base: u16at(d, 0x20),
            memory_limit: u16at(d, 0x22),
            prefetchable_memory: prefetchable_window(u16at(d, 0x24), u16at(d, 0x26), u32at(d, 0x28), u32at(d, 0x2c)),
            expansion_rom: m_expansion_rom(u32at(d, 0x38)),
            bridge_control: m_bridge_control(u16at(d, 0x3e)),
        }),
        2 => HeaderType::Cardbus(Cardbus {
            base_addresses: BaseAddresses::new(regs(d, 0x10)),
            secondary_status: m_status(u16at(d, 0x16)),
            pci_bus_number: d[0x18],
            cardbus_bus_number: d[0x19],
            subordinate_bus_number: d[0x1a],
            cardbus_latency_timer: d[0x1b],
            memory_base_address_0: u32at(d, 0x1c),
            memory_limit_address_0: u32at(d, 0x20),
            memory_base_address_1: u32at(d, 0x24),
            memory_limit_address_1: u32at(d, 0x28),
            io_access_address_range_0: io_access(words(d, 0x2c)),
            io_access_address_range_1: io_access(words(d, 0x34)),
            bridge_control: m_cardbus_bridge_control(u16at(d, 0x3e)),
            subsystem_vendor_id: None,
            subsystem_device_id: None,
            legacy_mode_base_address: None,
            reserved: None,
        }),
        v => HeaderType::Reserved(v),
    };
    let known = layout <= 2;
    Some(Header {
        vendor_id: u16at(d, 0),
        device_id: u16at(d, 2),
        command: m_command(u16at(d, 4)),
        status: m_status(u16at(d, 6)),
        revision_id: d[8],
        class_code: ClassCode { interface: d[9], sub: d[10], base: d[11] },
        cache_line_size: d[12],
        latency_timer: d[13],
        is_multi_function: bit(d[14], 7),
        header_type,
        bist: m_built_in_self_test(d[15]),
        capabilities_pointer: match layout { 0 | 1 => d[0x34] & !3, 2 => d[0x14] & !3, _ => 0 },
        interrupt_line: if known { d[0x3c] } else { 0 },
        interrupt_pin: m_interrupt_pin(if known { d[0x3d] } else { 0 }),
    })
}
/// The registers behind the base address list (equality of the list ignores unused ones)
fn derived(d: &[u8], h: &Header) -> Result<(), String> {
    same(&(d[0x0e] & 0x7f), &u8::from(&h.header_type))?;
    let rom = match &h.header_type {
        HeaderType::Normal(n) => { same_bars(&n.base_addresses, regs(d, 0x10))?; Some(m_expansion_rom(u32at(d, 0x30))) }
        HeaderType::Bridge(n) => { same_bars(&n.base_addresses, regs(d, 0x10))?; Some(m_expansion_rom(u32at(d, 0x38))) }
        HeaderType::Cardbus(n) => { same_bars(&n.base_addresses, regs(d, 0x10))?; None }
        HeaderType::Reserved(_) => None,
    };
    same(&rom, &h.header_type.expansion_rom())
}
pub fn check(d: &[u8]) -> Verdict {
    let r = Header::try_from(d);
    if let Ok(h) = &r {
        if let Ok(a) = <[u8; 0x40]>::try_from(d) { same(h, &Header::from(a))?; }
        derived(d, h)?;
    }
    cmp(r, expect(d))
}
pub fn walk(d: &[u8]) {
    let r = Header::try_from(d);
    sink(&r);
    if let Ok(h) = r {
        sink(&h.header_type.expansion_rom().map(|x| (u32::from(x.clone()), u64::from(x))));
        sink(&h.class_code.meaning());
        match &h.header_type {
            HeaderType::Normal(n) => { for b in n.base_addresses.clone().take(10) { sink(&b); } let _ = n.base_addresses == n.base_addresses.clone(); }
            HeaderType::Bridge(n) => for b in n.base_addresses.clone().take(10) { sink(&b); },
            HeaderType::Cardbus(n) => {
                for b in n.base_addresses.clone().take(10) { sink(&b); }
                sink(&<[[u16; 2]; 2]>::from(n.io_access_address_range_0.clone()));
                let mut c = n.clone();
                sink(&c.try_set_optional_registers(d));
                sink(&c);
            }
            HeaderType::Reserved(_) => (),
        }
        sink(&u8::from(h.bist.clone()));
        sink(&u8::from(h.interrupt_pin));
        sink(&u8::from(h.header_type));
    }
}
/// CardBus registers beyond the header: 40h..80h, taken only when all of them are there
pub fn check_cardbus_optional(d: &[u8]) -> Verdict {
    let mut img = [0u8; 0x40];
    img[0x0e] = 2;
    let HeaderType::Cardbus(base) = Header::from(img).header_type else { return Err("not a CardBus header".into()) };
    let mut c = base.clone();
    let r = c.try_set_optional_registers(d);
    if d.len() < 0x40 {
        return if r.is_err() && c == base { Ok("error") } else { Err(format!("short data: {r:?} {c:?}")) };
    }
    let mut want = base;
    want.subsystem_vendor_id = Some(u16at(d, 0));
    want.subsystem_device_id = Some(u16at(d, 2));
    want.legacy_mode_base_address = Some(u32at(d, 4));
    want.reserved = Some(d[8..0x40].try_into().expect("56 bytes"));
    if r.is_err() { return Err(format!("rejected: {r:?}")); }
    same(&want, &c)?;
    Ok("decoded")
}

type Interfaces = Vec<(u8, &'static str)>;
type Subclasses = Vec<Option<(&'static str, Interfaces)>>;
pub struct Classes(Vec<Option<(&'static str, Subclasses)>>);
pub fn classes() -> Classes {
    let mut t = Classes((0..256).map(|_| None).collect());
    let (mut base, mut sub) = (0usize, 0usize);
    for line in include_str!("classes.ids").lines() {
        let num = |s: &str| usize::from_str_radix(&s[..2], 16).expect("class number");
        if let Some(r) = line.strip_prefix("\t\t") {
            t.0[base].as_mut().expect("base").1[sub].as_mut().expect("sub").1.push((num(r) as u8, &r[4..]));
        } else if let Some(r) = line.strip_prefix('\t') {
            sub = num(r);
            t.0[base].as_mut().expect("base").1[sub] = Some((&r[4..], vec![]));
        } else if let Some(r) = line.strip_prefix("C ") {
            base = num(r);
            t.0[base] = Some((&r[4..], (0..256).map(|_| None).collect()));
        }
    }
    t
}
impl Classes {
    pub fn meaning(&self, base: u8, sub: u8, interface: u8) -> (&str, Option<&str>, Option<&str>) {
        let Some((b, subs)) = &self.0[base as usize] else { return ("Reserved", None, None) };
        let Some((s, ifs)) = &subs[sub as usize] else { return (b, None, None) };
        (b, Some(s), ifs.iter().find(|x| x.0 == interface).map(|x| x.1))
    }
}
}
