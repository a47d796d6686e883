//! C21: values the library writes back are the values it read. The image of a state is the raw
//! register value, little endian.

use crate::models::header as hdr;
use crate::*;
use pcics::capabilities::{accelerated_graphics_port as agp, hypertransport as ht, pci_express as pe, power_management_interface as pm};
use pcics::extended_capabilities as ext;
use pcics::header::*;

fn v32(d: &[u8]) -> u32 {
    let mut b = [0; 4];
    b[..d.len().min(4)].copy_from_slice(&d[..d.len().min(4)]);
    u32::from_le_bytes(b)
}

/// All values of a small field
fn field(ctx: &Ctx, name: &str, bits: u32, back: impl Fn(u8) -> u8 + Sync + Send + 'static) {
    ctx.sweep(name, "field", 1 << bits, &|i, b| {
        b.clear();
        b.push(i as u8);
        true
    }, &move |d| {
        let v = d[0];
        let got = back(v);
        if got == v { Ok("same") } else { Err(format!("{v:#x} written back as {got:#x}")) }
    });
}

/// 32-bit values: quick all low halves x menu of high halves and the reverse, every single and
/// double bit; thorough all of them
pub fn words32(ctx: &Ctx, name: &str, check: &CheckFn) {
    if ctx.thorough() {
        ctx.sweep(name, "all dwords", 1 << 32, &|i, b| {
            b.clear();
            b.extend_from_slice(&(i as u32).to_le_bytes());
            true
        }, check);
        return;
    }
    let menu = halves();
    let m = menu.len() as u64;
    ctx.sweep(name, "dwords", 2 * m << 16, &|i, b| {
        let x = (i & 0xffff) as u16;
        let y = menu[((i >> 16) % m) as usize];
        let v = if (i >> 16) / m == 0 { (y as u32) << 16 | x as u32 } else { (x as u32) << 16 | y as u32 };
        b.clear();
        b.extend_from_slice(&v.to_le_bytes());
        true
    }, check);
    // any nine bits with all values
    let array = crate::covering::Array::new(4, 9);
    ctx.sweep(name, "bits together", array.rows, &|r, b| {
        array.row(r, b);
        true
    }, check);
}
fn halves() -> Vec<u16> {
    let mut v = vec![0u16, 0xffff, 0x5555, 0xaaaa, 0x1234, 0xfedc, 0x00ff, 0xff00];
    v.extend((0..16).map(|k| 1u16 << k));
    v.extend((0..16).map(|k| !(1u16 << k)));
    v
}
fn words16(ctx: &Ctx, name: &str, check: &CheckFn) {
    ctx.sweep(name, "all words", 1 << 16, &|i, b| {
        b.clear();
        b.extend_from_slice(&(i as u16).to_le_bytes());
        true
    }, check);
}
fn kept32(mask: u32, back: impl Fn(u32) -> u32 + Sync + Send + 'static) -> Box<CheckFn> {
    Box::new(move |d| {
        let v = v32(d);
        let got = back(v);
        if got == v & mask { Ok("same") } else { Err(format!("{v:#010x} written back as {got:#010x}, should be {:#010x}", v & mask)) }
    })
}

pub fn run(ctx: &Ctx) {
    use ext::root_complex_link_declaration::*;
    // Header
    ctx.sweep("header_type", "field", 256, &|i, b| {
        b.clear();
        b.push(i as u8);
        true
    }, &|d| {
        let mut img = [0u8; 0x40];
        img[0x0e] = d[0];
        let t = Header::from(img).header_type;
        same(&(d[0] & 0x7f), &u8::from(&t))?;
        same(&(d[0] & 0x7f), &u8::from(t))?;
        Ok("same")
    });
    field(ctx, "interrupt_pin", 8, |v| InterruptPin::from(v).into());
    ctx.sweep("bist", "field", 256, &|i, b| {
        b.clear();
        b.push(i as u8);
        true
    }, &|d| {
        same(&hdr::header::m_built_in_self_test(d[0]), &BuiltInSelfTest::from(d[0]))?;
        same(&(d[0] & 0xcf), &u8::from(BuiltInSelfTest::from(d[0])))?;
        Ok("same")
    });
    words32(ctx, "expansion_rom", &*kept32(!0, |v| ExpansionRom::from(v).into()));
    words32(ctx, "expansion_rom_u64", &|d| {
        let v = v32(d);
        same(&(v as u64), &u64::from(ExpansionRom::from(v)))?;
        Ok("same")
    });
    io_access(ctx);
    bars(ctx);
    // Capabilities
    field(ctx, "agp_cal_cycle", 3, |v| agp::CalCycle::from(v).into());
    field(ctx, "agp_data_rate_support", 3, |v| agp::DataRateSupport::from(v).into());
    field(ctx, "agp_data_rate_enabled", 3, |v| agp::DataRateEnabled::from(v).into());
    field(ctx, "pm_data_select", 4, |v| pm::DataSelect::from(v).into());
    field(ctx, "pcie_link_speed", 4, |v| pe::LinkSpeed::from(v).into());
    field(ctx, "pcie_link_width", 6, |v| pe::LinkWidth::from(v).into());
    field(ctx, "pcie_completion_timeout_ranges", 4, |v| pe::CompletionTimeoutRanges::from(v).into());
    field(ctx, "pcie_tph_completer", 2, |v| pe::TphCompleter::from(v).into());
    field(ctx, "pcie_ln_system_cls", 2, |v| pe::LnSystemCls::from(v).into());
    field(ctx, "pcie_obff", 2, |v| pe::Obff::from(v).into());
    field(ctx, "pcie_max_end_end_tlp_prefixes", 2, |v| pe::MaxEndEndTlpPrefixes::from(v).into());
    field(ctx, "pcie_emergency_power_reduction", 2, |v| pe::EmergencyPowerReduction::from(v).into());
    field(ctx, "pcie_completion_timeout_value", 4, |v| pe::CompletionTimeoutValue::from(v).into());
    field(ctx, "pcie_obff_enable", 2, |v| pe::ObffEnable::from(v).into());
    field(ctx, "pcie_end_end_tlp_prefix_blocking", 1, |v| bool::from(pe::EndEndTlpPrefixBlocking::from(v == 1)) as u8);
    field(ctx, "ht_revision_id", 8, |v| (&ht::RevisionId::from(v)).into());
    ctx.sweep("ht_capability_type", "field", 256, &|i, b| {
        b.clear();
        b.push(i as u8);
        true
    }, &|d| {
        let mut img = [0u8; 26];
        img[1] = d[0];
        let h = ht::Hypertransport::try_from(&img[..]).map_err(|e| format!("{e:?}"))?;
        // the two interface types have three bits, the others five
        let want = if d[0] >> 5 <= 1 { d[0] >> 5 << 2 } else { d[0] >> 3 };
        let got = u8::from(&h);
        if got == want { Ok("same") } else { Err(format!("type {want:#x} written back as {got:#x}")) }
    });
    // Extended capabilities
    words16(ctx, "max_latency", &|d| {
        let v = v32(d) as u16;
        same(&(v & 0x1fff), &u16::from(ext::latency_tolerance_reporting::MaxLatency::from(v)))?;
        Ok("same")
    });
    {
        use ext::multifunction_virtual_channel::*;
        field(ctx, "mfvc_function_arbitration_select", 3, |v| FunctionArbitrationSelect::from(v).into());
        words32(ctx, "mfvc_vc_resource_capability", &*kept32(0xff7f_00ff, |v| VcResourceCapability::from(v).into()));
        words32(ctx, "mfvc_vc_resource_control", &*kept32(0x870f_00ff, |v| VcResourceControl::from(v).into()));
        words16(ctx, "mfvc_vc_resource_status", &|d| {
            let v = v32(d) as u16;
            same(&(v & 3), &u16::from(VcResourceStatus::from(v)))?;
            Ok("same")
        });
        let t = Target::new("mfvc_extended_virtual_channel", 12, |d| {
            let raw: [u8; 12] = d.try_into().map_err(|_| "length")?;
            let evc = ExtendedVirtualChannel::from(raw);
            let back: [u8; 12] = evc.clone().into();
            let mask = [0xff, 0, 0x7f, 0xff, 0xff, 0, 0x0f, 0x87, 0, 0, 3, 0];
            let want: [u8; 12] = std::array::from_fn(|i| raw[i] & mask[i]);
            same(&want, &back)?;
            same(&evc, &ExtendedVirtualChannel::from(back))?;
            Ok("same")
        }).no_truncate();
        ctx.explore(&t);
    }
    field(ctx, "vc_port_arbitration_select", 3, |v| ext::virtual_channel::PortArbitrationSelect::from(v).into());
    field(ctx, "cxl_cache_sf_coverage", 5, |v| {
        ext::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfCoverage::from(v).into()
    });
    field(ctx, "l1pm_t_power_on_scale", 2, |v| ext::l1_pm_substates::PortTPowerOnScale::from(v).into());
    {
        use ext::l1_pm_substates::*;
        let of = |o: usize, v: u32| {
            let mut img = [0u8; 12];
            img[o..o + 4].copy_from_slice(&v.to_le_bytes());
            L1PmSubstates::try_from(&img[..]).expect("12 bytes")
        };
        words32(ctx, "l1pm_capabilities", &*kept32(0x00fb_ff1f, move |v| of(0, v).l1_pm_substates_capabilities.into()));
        words32(ctx, "l1pm_control_1", &*kept32(0xe3ff_ff0f, move |v| of(4, v).l1_pm_substates_control_1.into()));
        words32(ctx, "l1pm_control_2", &*kept32(0xfb, move |v| of(8, v).l1_pm_substates_control_2.into()));
    }
    field(ctx, "rcld_element_type", 8, |v| ElementType::from(v).into());
    words32(ctx, "pmux_protocol_array_entry", &|d| {
        use ext::protocol_multiplexing::*;
        let raw: [u8; 4] = d.try_into().map_err(|_| "length")?;
        let mut it = PmuxProtocolArray::new(&raw);
        let e = it.next().ok_or("no entry")?;
        same(&raw, &<[u8; 4]>::from(e))?;
        Ok("same")
    });
    let t = Target::new("rcld_link_address", 9, |d| {
        if d.len() != 9 { return Ok("cut"); }
        let (lo, hi) = (u32at(d, 1), u32at(d, 5));
        let la = LinkAddress::new(d[0], lo, hi);
        let back: [u32; 2] = la.into();
        // N = 000b and 1000b both mean eight bus number bits; only the former is written
        same(&[lo, hi], &back)?;
        Ok("same")
    });
    let mut bases = vec![];
    for ty in [0u8, 1] {
        for pat in patterns(8) {
            let mut b = vec![ty];
            b.extend(pat);
            bases.push(b);
        }
    }
    ctx.explore(&t.bases(bases).positions(1..9).no_truncate());
}

/// CardBus I/O windows: 16-bit windows have no upper halves; reserved limit bits read as zero
fn io_access(ctx: &Ctx) {
    let check: Box<CheckFn> = Box::new(|d| {
        let w: [u16; 4] = std::array::from_fn(|i| u16at(d, 2 * i));
        let pairs = [[w[0], w[1]], [w[2], w[3]]];
        let r = IoAccessAddressRange::from(pairs);
        same(&r, &IoAccessAddressRange::from(w))?;
        same(&hdr::header::io_access(w), &r)?;
        let back: [[u16; 2]; 2] = r.clone().into();
        let want = if w[0] & 3 == 0 { [[w[0], 0], [w[2] & !3, 0]] } else { [[w[0], w[1]], [w[2] & !3, w[3]]] };
        same(&want, &back)?;
        same(&r, &IoAccessAddressRange::from(back))?;
        Ok(match r {
            IoAccessAddressRange::Addr16Bit { .. } => "16 bit",
            IoAccessAddressRange::Addr32Bit { .. } => "32 bit",
            IoAccessAddressRange::Unknown { .. } => "unknown",
        })
    });
    let menu = if ctx.thorough() { halves() } else { vec![0, 0xffff, 0x5555, 0xaaaa, 0x1234, 0x0001] };
    let m = menu.len() as u64;
    for k in 0..4usize {
        // one word over its whole domain, the three others over the menu
        ctx.sweep("io_access", "words", m * m * m << 16, &|i, b| {
            let full = (i & 0xffff) as u16;
            let mut r = i >> 16;
            b.clear();
            for j in 0..4 {
                let v = if j == k { full } else { let v = menu[(r % m) as usize]; r /= m; v };
                b.extend_from_slice(&v.to_le_bytes());
            }
            true
        }, &*check);
    }
}

/// A decoded list of base addresses written into registers decodes to the same list
fn bars(ctx: &Ctx) {
    ctx.sweep("base_address_list", "registers", bar_states(5), &|i, b| bar_image(i, 5, b), &bars_back::<5>);
    ctx.sweep("base_address_list_6", "registers", bar_states(6), &|i, b| bar_image(i, 6, b), &bars_back::<6>);
    ctx.sweep("base_address_list_2", "registers", bar_states(2), &|i, b| bar_image(i, 2, b), &bars_back::<2>);
    let array = crate::covering::Array::new(24, 7);
    ctx.sweep("base_address_list_6", "bits together", array.rows, &|r, b| {
        array.row(r, b);
        true
    }, &bars_back::<6>);
    let array = crate::covering::Array::new(24, 3);
    const KINDS: [u8; 5] = [0x00, 0x01, 0x04, 0x08, 0x0c];
    ctx.sweep("base_address_list_6", "bits together, kinds", array.rows * 5u64.pow(6), &|i, b| {
        array.row(i % array.rows, b);
        let mut i = i / array.rows;
        for r in 0..6 {
            b[4 * r] = b[4 * r] & 0xf0 | KINDS[crate::chains::digit(&mut i, 5) as usize];
        }
        true
    }, &bars_back::<6>);
    words32(ctx, "base_address_list_1", &bars_back::<1>);
}
pub const BAR_MENU: [u32; 14] = [
    0, 0xfebf_f000, 0xd000_000c, 0x0000_0004, 0x0000_e001, 0x0000_0001, 0xffff_fff3, 0x000f_0002, 0x0000_000a, 0xffff_ffff,
    0x1234_5676, 0x0000_000e, 0x8000_0008, 0x0000_0010,
];
pub fn bar_states(n: u32) -> u64 {
    (BAR_MENU.len() as u64).pow(n)
}
pub fn bar_image(mut i: u64, n: usize, b: &mut Vec<u8>) -> bool {
    b.clear();
    for _ in 0..n {
        let v = BAR_MENU[(i % BAR_MENU.len() as u64) as usize];
        i /= BAR_MENU.len() as u64;
        b.extend_from_slice(&v.to_le_bytes());
    }
    true
}
fn bars_back<const N: usize>(d: &[u8]) -> Verdict {
    let regs: [u32; N] = hdr::header::regs(d, 0);
    let list: Vec<BaseAddress> = BaseAddresses::new(regs).collect();
    let back: [u32; N] = list.iter().collect();
    same(&back, &list.iter().cloned().collect::<[u32; N]>())?;
    let again: Vec<BaseAddress> = BaseAddresses::new(back).collect();
    same(&list, &again)?;
    // bit for bit, but for the reserved bit 1 of an I/O address and the
    // address of a 64-bit one with no upper half, which is not represented
    let mut i = 0;
    while i < N {
        let v = regs[i];
        let mask = match (v & 1 == 1, v & 7 == 4) {
            (true, _) => !2,
            (_, true) if i + 1 == N => 0xf,
            _ => !0,
        };
        same(&(v & mask), &back[i])?;
        i += 1;
        if v & 7 == 4 && i < N {
            same(&regs[i], &back[i])?;
            i += 1;
        }
    }
    // A list decoded from more registers than it is written to: those which
    // have a register of their own keep it, and none of them is a panic
    fewer::<1>(&list, &back)?;
    fewer::<2>(&list, &back)?;
    fewer::<3>(&list, &back)?;
    Ok("bit for bit")
}
/// The registers below the last one of a shorter array are those of the list
fn fewer<const M: usize>(list: &[BaseAddress], back: &[u32]) -> Result<(), String> {
    let short: [u32; M] = list.iter().collect();
    let n = (M - 1).min(back.len());
    same(&back[..n].to_vec(), &short[..n].to_vec())
}
