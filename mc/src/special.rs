//! State spaces of the properties that are not about one decoder.

use crate::chains::*;
use crate::encode::{bar_image, bar_states, words32, BAR_MENU};
use crate::models::{caps2::ea, header::header as hdr};
use crate::registry::*;
use crate::*;
use pcics::capabilities::{Capabilities, Capability, CapabilityError, CapabilityKind, VendorSpecific};
use pcics::extended_capabilities::ExtendedCapabilities;
use pcics::header::*;
use std::sync::atomic::Ordering;
use std::sync::OnceLock;

fn find(name: &str) -> Cap {
    registry().into_iter().find(|c| c.name == name).expect("registered decoder")
}

// ---------------------------------------------------------------- C01

fn walkers() -> &'static [Cap] {
    static W: OnceLock<Vec<Cap>> = OnceLock::new();
    W.get_or_init(registry)
}
/// Everything a caller can do with the bytes of a function
pub fn pipeline(img: &[u8]) -> Verdict {
    hdr::walk(img);
    let mut n = 0;
    if let (Ok(h), Some(dev)) = (Header::try_from(img), img.get(0x40..img.len().min(256))) {
        let bridge = matches!(h.header_type, HeaderType::Bridge(_));
        for item in Capabilities::new(dev, &h).take(60) {
            sink(&item);
            n += 1;
            match item {
                Ok(c) => {
                    let p = c.pointer as usize;
                    for w in walkers() {
                        if let Place::Cap(id, l) = w.place {
                            if id == img[p] && (l == Layout::Bridge) == bridge {
                                (w.walk)(&img[p + 2..img.len().min(256)]);
                            }
                        }
                    }
                }
                Err(e) => sink(&format_args!("{e}")),
            }
        }
    }
    if let Some(ecs) = img.get(0x100..) {
        for item in ExtendedCapabilities::new(ecs).take(970) {
            sink(&item);
            n += 1;
            match item {
                Ok(c) => {
                    let at = &ecs[c.offset as usize - 0x100..];
                    for w in walkers() {
                        match w.place {
                            Place::Ext(id) if id == c.id() => (w.walk)(&at[4..]),
                            Place::ExtAtHeader(id) if id == c.id() => (w.walk)(at),
                            _ => (),
                        }
                    }
                }
                Err(e) => sink(&format_args!("{e}")),
            }
        }
    }
    steps(n);
    Ok(match n {
        0 => "nothing found",
        1..=9 => "few items",
        _ => "many items",
    })
}

pub fn totality(ctx: &Ctx) {
    let header = header_target("header", |d| {
        hdr::walk(d);
        Ok("returned")
    });
    // formatting every result costs most of the time: everything reachable is executed on all
    // states, and in addition formatted on those of full length or with nothing but the length changed
    FORMAT.store(false, Ordering::Relaxed);
    ctx.explore(&if ctx.thorough() { header.boost(2) } else { header });
    for c in registry() {
        let mut t = c.walk_target();
        t.weight *= if ctx.thorough() { 4 } else { 10 };
        // whatever comes after the structure is part of the data as well
        let longer = t.bases.iter().map(|b| b.iter().copied().chain([0xff, 0x00, 0x5a, 0x01, 0x80, 0x7f, 0x10, 0x33]).collect());
        t.bases = if t.cut_positions.is_empty() { longer.collect() } else { t.bases };
        if !ctx.thorough() {
            // of every background and of many shapes
            let step = t.bases.len() / 5 / 20 + 1;
            t.bases = t.bases.into_iter().step_by(step).collect();
        }
        ctx.explore(&t);
        FORMAT.store(true, Ordering::Relaxed);
        ctx.explore(&c.walk_target().singles_only().no_truncate());
        for base in &t.bases {
            ctx.sweep(c.name, "formatted", base.len() as u64, &|i, b| {
                b.clear();
                b.extend_from_slice(&base[..i as usize]);
                true
            }, &*t.check);
        }
        FORMAT.store(false, Ordering::Relaxed);
    }
    FORMAT.store(true, Ordering::Relaxed);
    let ends_caps: Box<CheckFn> = Box::new(|d| {
        let _ = check_ends_caps(d);
        Ok("returned")
    });
    let ends_ext: Box<CheckFn> = Box::new(|d| {
        let _ = check_ends_ext(d);
        Ok("returned")
    });
    for space in [cap_single, cap_truncated, cap_strides] {
        space(ctx, &*ends_caps);
    }
    for space in [ext_single, ext_truncated, ext_strides] {
        space(ctx, &*ends_ext);
    }
    // whole functions
    let mut images = dumps();
    let (caps, exts) = (cap_zoo(), ext_zoo());
    for i in 0..caps.len().max(exts.len()) {
        let mut img = caps[i % caps.len()].clone();
        img.extend_from_slice(&exts[i % exts.len()]);
        images.push(img);
    }
    images.extend(patterns(4096));
    let menu: Vec<u8> = if ctx.thorough() { (0..=255).collect() } else { vec![0x00, 0xff, 0x01, 0x10, 0x80, 0x3f, 0x54] };
    let nv = menu.len() as u64;
    for img in &images {
        let n = img.len() as u64;
        ctx.sweep("function", "cut", n + 1, &|i, b| {
            b.clear();
            b.extend_from_slice(&img[..i as usize]);
            true
        }, &pipeline);
        FORMAT.store(false, Ordering::Relaxed);
        ctx.sweep("function", "1byte", n * nv, &|i, b| {
            let (p, v) = ((i / nv) as usize, menu[(i % nv) as usize]);
            b.clear();
            b.extend_from_slice(img);
            b[p] = v;
            v != img[p]
        }, &pipeline);
        FORMAT.store(true, Ordering::Relaxed);
    }
    FORMAT.store(false, Ordering::Relaxed);
    tables(ctx, true, None);
}

// ---------------------------------------------------------------- C06

/// Decoders whose result refers to everything up to the end of the region
const OPEN_ENDED: [&str; 12] = [
    "virtual_channel", "virtual_channel_mfvc", "multifunction_virtual_channel", "secondary_pci_express", "tph_requester",
    "access_control_services", "rc_link_declaration", "enhanced_allocation", "enhanced_allocation_bridge", "vendor_specific_ext",
    "designated_vendor_specific", "cxl_dvsec_ids",
];

fn own_bytes<'a>(img: &'a [u8], from: usize, len: usize, open: bool) -> &'a [u8] {
    let end = if open { img.len() } else { (from + len).min(img.len()) };
    &img[from..end]
}
/// The first capability is what its bytes alone say
fn local_cap(img: &[u8], len: usize, open: bool) -> Verdict {
    let h = Header::try_from(img).map_err(|e| format!("header {e:?}"))?;
    let p = first_pointer(img) as usize;
    let got = Capabilities::new(&img[0x40..], &h).next().ok_or("no capability")?;
    let bridge = img[0x0e] & 0x7f == 1;
    // of the header only vendor, device and layout count
    let mut plain = [0u8; 0x40];
    plain[..4].copy_from_slice(&img[..4]);
    plain[0x0e] = img[0x0e] & 0x7f;
    let plain = Header::from(plain);
    let mut want = direct_cap(img[p], own_bytes(img, p + 2, len, open), &plain, bridge, p as u8);
    if want.is_err() {
        // the structure as given is incomplete
        want = direct_cap(img[p], &img[p + 2..], &plain, bridge, p as u8);
    }
    let want = want.map(|kind| pcics::capabilities::Capability { pointer: p as u8, kind });
    steps(1);
    if got == want { Ok(if got.is_ok() { "decoded" } else { "does not fit" }) } else { Err(format!("its bytes say {want:?}, reported {got:?}")) }
}
/// The second extended capability is what its bytes alone say
fn local_ext(ecs: &[u8], len: usize, open: bool) -> Verdict {
    let offset = (u32at(ecs, 0) >> 20) as u16 & 0xffc;
    let o = offset as usize - 0x100;
    let got = ExtendedCapabilities::new(ecs).nth(1).ok_or("no capability")?;
    let head = u32at(ecs, o);
    let mut want = direct_ext(head as u16, own_bytes(ecs, o, len, open), offset);
    if want.is_err() {
        want = direct_ext(head as u16, &ecs[o..], offset);
    }
    let want = want.map(|kind| pcics::extended_capabilities::ExtendedCapability { kind, version: (head >> 16) as u8 & 0xf, offset });
    steps(2);
    if got == want { Ok(if got.is_ok() { "decoded" } else { "does not fit" }) } else { Err(format!("its bytes say {want:?}, reported {got:?}")) }
}

pub fn locality(ctx: &Ctx) {
    let surroundings: [fn(usize) -> u8; 3] = [|_| 0, |_| 0xff, |i| (i as u8).wrapping_mul(0x1d).wrapping_add(7)];
    for c in registry() {
        let open = OPEN_ENDED.contains(&c.name);
        let bases = c.target().bases;
        let nb = bases.len() as u64;
        let len = c.len;
        match c.place {
            Place::Cap(id, l) => {
                let place = |p: usize, sur: usize, img: &[u8], b: &mut Vec<u8>| {
                    b.clear();
                    b.extend_from_slice(&space(l, p as u8, &[0u8; 192]));
                    for i in 0x40..256 {
                        b[i] = surroundings[sur](i);
                    }
                    b[p] = id;
                    b[p + 1] = 0;
                    let n = img.len().min(256 - p - 2);
                    b[p + 2..p + 2 + n].copy_from_slice(&img[..n]);
                };
                ctx.sweep(c.name, "every place", nb * 48 * 3, &|i, b| {
                    let mut i = i;
                    let (k, slot, s) = (digit(&mut i, nb), digit(&mut i, 48), digit(&mut i, 3));
                    place(0x40 + 4 * slot as usize, s as usize, &bases[k as usize], b);
                    true
                }, &move |d| local_cap(d, len, open));
                // the rest of the header: three fillings, with one byte at any value, or two
                let fixed = |p: usize| match p {
                    0..=3 => id == 0x09,
                    0x14 => l == Layout::Cardbus,
                    0x34 => l != Layout::Cardbus,
                    _ => false,
                };
                let fill = |sur: usize, img: &[u8], b: &mut Vec<u8>| {
                    place(0x40, 2, img, b);
                    for p in (0..0x40).filter(|&p| !fixed(p)) {
                        b[p] = if p == 0x0e { surroundings[sur](p) & 0x80 | b[p] & 0x7f } else { surroundings[sur](p) };
                    }
                };
                let poke = |p: usize, v: u8, b: &mut Vec<u8>| -> bool {
                    let v = if p == 0x0e { v & 0x80 | b[p] & 0x7f } else { v };
                    !fixed(p) && b[p] != v && {
                        b[p] = v;
                        true
                    }
                };
                let hb: Vec<&Vec<u8>> = bases.iter().step_by(if ctx.thorough() { 1 } else { (nb as usize / 8).max(1) }).collect();
                let nh = hb.len() as u64;
                ctx.sweep(c.name, "header byte", nh * 3 * 64 * 256, &|i, b| {
                    let mut i = i;
                    let (k, s, p, v) = (digit(&mut i, nh) as usize, digit(&mut i, 3) as usize, digit(&mut i, 64) as usize, digit(&mut i, 256) as u8);
                    fill(s, hb[k], b);
                    poke(p, v, b)
                }, &move |d| local_cap(d, len, open));
                const PAIR: [u8; 6] = [0x00, 0xff, 0x01, 0x04, 0x10, 0x80];
                ctx.sweep(c.name, "header pairs", nh.min(3) * 3 * 64 * 64 * 36, &|i, b| {
                    let mut i = i;
                    let (k, s, p, q) = (digit(&mut i, nh.min(3)) as usize, digit(&mut i, 3) as usize, digit(&mut i, 64) as usize, digit(&mut i, 64) as usize);
                    fill(s, hb[k], b);
                    let (v, w) = (PAIR[digit(&mut i, 6) as usize], PAIR[digit(&mut i, 6) as usize]);
                    p < q && poke(p, v, b) && poke(q, w, b)
                }, &move |d| local_cap(d, len, open));
                // any bits of the header together
                let array = crate::covering::Array::new(64, if ctx.thorough() { 5 } else { 3 });
                ctx.sweep(c.name, "header bits together", nh.min(8) * array.rows, &|i, b| {
                    place(0x40, 2, hb[(i / array.rows) as usize], b);
                    (0..64).filter(|&p| poke(p, array.byte(i % array.rows, p), b)).count() > 0
                }, &move |d| local_cap(d, len, open));
                // and of the region around it
                let array = crate::covering::Array::new(192, 3);
                for at in [0x40usize, 0x84] {
                    ctx.sweep(c.name, "region bits together", nh.min(8) * array.rows, &|i, b| {
                        place(at, 2, hb[(i / array.rows) as usize], b);
                        for p in (0x40..0x100).filter(|p| !(at..at + 2 + len).contains(p)) {
                            b[p] = array.byte(i % array.rows, p - 0x40);
                        }
                        true
                    }, &move |d| local_cap(d, len, open));
                }
                // every value of each 16 bit register that tells who made the function and what it is
                const WORDS: [usize; 7] = [0x00, 0x02, 0x04, 0x06, 0x0a, 0x2c, 0x2e];
                ctx.sweep(c.name, "header words", nh.min(2) * 7 * 65536, &|i, b| {
                    let mut i = i;
                    let (k, w) = (digit(&mut i, nh.min(2)) as usize, WORDS[digit(&mut i, 7) as usize]);
                    fill(2, hb[k], b);
                    let (low, high) = (poke(w, i as u8, b), poke(w + 1, (i >> 8) as u8, b));
                    low || high
                }, &move |d| local_cap(d, len, open));
                // every device of makers that quirks are written for
                const VENDORS: [u16; 20] = [
                    0x8086, 0x10de, 0x1002, 0x1022, 0x14e4, 0x15b3, 0x10ec, 0x1b21, 0x144d, 0x1b36, 0x1af4, 0x1106, 0x1039, 0x10b5, 0x1166,
                    0x104c, 0x11ab, 0x1077, 0x1000, 0x1d0f,
                ];
                // and of any number of 16 bits the library is written with
                let named = constants::get().words.iter().filter(|v| !VENDORS.contains(v));
                let vendors: Vec<u16> = VENDORS.iter().chain(named).copied().collect();
                let nv = vendors.len() as u64;
                let nk = nh.min(4);
                ctx.sweep(c.name, "vendor x device", nv * nk * 65536, &|i, b| {
                    let mut i = i;
                    let vendor = vendors[digit(&mut i, nv) as usize].to_le_bytes();
                    fill(0, hb[(digit(&mut i, nk) * nh / nk) as usize], b);
                    let device = (i as u16).to_le_bytes();
                    for (p, v) in [vendor[0], vendor[1], device[0], device[1]].into_iter().enumerate() {
                        poke(p, v, b);
                    }
                    !fixed(0)
                }, &move |d| local_cap(d, len, open));
                // two header words, or a word and a byte, that the library names
                let words: Vec<u16> =
                    constants::get().wide.iter().filter_map(|&v| u16::try_from(v).ok()).collect();
                let (nc, nb) = (words.len() as u64, constants::get().bytes.len() as u64);
                ctx.sweep(c.name, "header constants", 49 * nc * nc, &|i, b| {
                    let mut i = i;
                    let (x, y) = (digit(&mut i, nc) as usize, digit(&mut i, nc) as usize);
                    let (p, q) = (WORDS[digit(&mut i, 7) as usize], WORDS[digit(&mut i, 7) as usize]);
                    fill(2, hb[0], b);
                    let mut varied = false;
                    for (p, v) in [(p, words[x]), (q, words[y])] {
                        varied |= poke(p, v as u8, b) | poke(p + 1, (v >> 8) as u8, b);
                    }
                    varied && p < q
                }, &move |d| local_cap(d, len, open));
                ctx.sweep(c.name, "header constants, bytes", 7 * nc * nb * 64, &|i, b| {
                    let mut i = i;
                    let (x, y) = (digit(&mut i, nc) as usize, digit(&mut i, nb) as usize);
                    let (p, q) = (WORDS[digit(&mut i, 7) as usize], digit(&mut i, 64) as usize);
                    fill(2, hb[0], b);
                    let varied = poke(p, words[x] as u8, b) | poke(p + 1, (words[x] >> 8) as u8, b);
                    poke(q, constants::get().bytes[y], b) && varied && q != p && q != p + 1
                }, &move |d| local_cap(d, len, open));
                // a number the library names, in any register of the region around
                let wide = &constants::get().wide;
                let nw = wide.len() as u64;
                for at in [0x40usize, 0x84] {
                    ctx.sweep(c.name, "constants elsewhere", nh.min(2) * nw * 92, &|i, b| {
                        let mut i = i;
                        let (k, v) = (digit(&mut i, nh.min(2)) as usize, wide[digit(&mut i, nw) as usize].to_le_bytes());
                        let p = 0x40 + 2 * i as usize;
                        let n = if v[2..] == [0; 6] { 2 } else if v[4..] == [0; 4] { 4 } else { 8 };
                        if (at..at + 2 + len).any(|x| (p..p + n).contains(&x)) {
                            return false;
                        }
                        place(at, 2, hb[k], b);
                        b[p..p + n].copy_from_slice(&v[..n]);
                        true
                    }, &move |d| local_cap(d, len, open));
                }
                // one byte elsewhere: anything but what tells the layout and the start of the list
                let values: Vec<u8> = (0..=255).collect();
                let nv = values.len() as u64;
                for at in [0x40usize, 0x84] {
                    let some: Vec<&Vec<u8>> = if ctx.thorough() { bases.iter().collect() } else { bases.iter().step_by((bases.len() / 3).max(1)).collect() };
                    let ns = some.len() as u64;
                    ctx.sweep(c.name, "elsewhere", ns * 256 * nv, &|i, b| {
                        let mut i = i;
                        let (k, p, v) = (digit(&mut i, ns) as usize, digit(&mut i, 256) as usize, values[digit(&mut i, nv) as usize]);
                        let defining = match p {
                            0..=3 => id == 0x09,
                            0x0e => true,
                            0x14 => l == Layout::Cardbus,
                            0x34 => l != Layout::Cardbus,
                            _ => false,
                        };
                        if defining || (at..at + 2 + len).contains(&p) {
                            return false;
                        }
                        place(at, 2, some[k], b);
                        b[p] = v;
                        true
                    }, &move |d| local_cap(d, len, open));
                }
            }
            Place::Ext(id) | Place::ExtAtHeader(id) => {
                let skip = if matches!(c.place, Place::ExtAtHeader(_)) { 4 } else { 0 };
                let total = 4 + len - skip;
                let backgrounds: Vec<Vec<u8>> = surroundings.iter().map(|f| (0..ECS).map(f).collect()).collect();
                let place = |o: usize, sur: usize, img: &[u8], b: &mut Vec<u8>| {
                    b.clear();
                    b.extend_from_slice(&backgrounds[sur]);
                    ext_header(b, 0, 0x25, 1, (0x100 + o) as u16);
                    ext_header(b, o, id, 2, 0);
                    let n = (img.len() - skip).min(ECS - o - 4);
                    b[o + 4..o + 4 + n].copy_from_slice(&img[skip..skip + n]);
                };
                // in the quick tier every place for a few bases, every base at a few places
                let few: Vec<&Vec<u8>> = if ctx.thorough() { bases.iter().collect() } else { bases.iter().step_by((bases.len() / 12).max(1)).collect() };
                let nf = few.len() as u64;
                let slots = (ECS / 4 - 1) as u64;
                ctx.sweep(c.name, "every place", nf * slots * 3, &|i, b| {
                    let mut i = i;
                    let (k, slot, s) = (digit(&mut i, nf), digit(&mut i, slots), digit(&mut i, 3));
                    place(4 + 4 * slot as usize, s as usize, few[k as usize], b);
                    true
                }, &move |d| local_ext(d, total, open));
                let places = [0x04usize, 0x40, 0x700, 0x6fc, ECS - 0x100, ECS - 4];
                let np = places.len() as u64;
                ctx.sweep(c.name, "every shape", nb * np * 3, &|i, b| {
                    let mut i = i;
                    let (k, p, s) = (digit(&mut i, nb), digit(&mut i, np), digit(&mut i, 3));
                    place(places[p as usize], s as usize, &bases[k as usize], b);
                    true
                }, &move |d| local_ext(d, total, open));
                let values: &[u8] = if ctx.thorough() { &MENU } else { &[0x00, 0xff, 0x31, 0x80] };
                let nv = values.len() as u64;
                let at = 0x304usize;
                ctx.sweep(c.name, "elsewhere", nf.min(8) * ECS as u64 * nv, &|i, b| {
                    let mut i = i;
                    let (k, p, v) = (digit(&mut i, nf.min(8)) as usize, digit(&mut i, ECS as u64) as usize, values[digit(&mut i, nv) as usize]);
                    if p < 4 || (at..at + total).contains(&p) {
                        return false;
                    }
                    place(at, 2, few[k], b);
                    b[p] = v;
                    true
                }, &move |d| local_ext(d, total, open));
                // a number the library names, in any register elsewhere
                let wide = &constants::get().wide;
                let (nc, nk) = (wide.len() as u64, nf.min(if ctx.thorough() { 8 } else { 2 }));
                ctx.sweep(c.name, "constants elsewhere", nk * nc * (ECS as u64 / 2 - 5), &|i, b| {
                    let mut i = i;
                    let (k, v) = (digit(&mut i, nk) as usize, wide[digit(&mut i, nc) as usize].to_le_bytes());
                    let p = 4 + 2 * i as usize;
                    let n = if v[2..] == [0; 6] { 2 } else if v[4..] == [0; 4] { 4 } else { 8 };
                    if (at..at + total).any(|x| (p..p + n).contains(&x)) {
                        return false;
                    }
                    place(at, 2, few[k], b);
                    b[p..p + n].copy_from_slice(&v[..n]);
                    true
                }, &move |d| local_ext(d, total, open));
            }
        }
    }
}

// ---------------------------------------------------------------- C14

/// Which functions have their vendor-specific structures read as virtio: vendor id, device id and
/// header type, through the capability list
pub fn vendor_ids(ctx: &Ctx) {
    let check = |img: &[u8]| -> Verdict {
        let mut full = vec![0u8; 0x40];
        full[..4].copy_from_slice(&img[..4]);
        full[0x0e] = img[4];
        full[if img[4] & 0x7f == 2 { 0x14 } else { 0x34 }] = 0x40;
        full.extend([0x09, 0x00]);
        full.extend(&img[5..]);
        let header = Header::try_from(full.as_slice()).map_err(|e| format!("{e:?}"))?;
        let got = match Capabilities::new(&full[0x40..], &header).next() {
            Some(Ok(Capability { kind: CapabilityKind::VendorSpecific(v), .. })) => Ok(v),
            Some(Err(CapabilityError::VendorSpecific { source, .. })) => Err(source),
            x => return Err(format!("delivered {x:?}")),
        };
        let want = crate::models::legacy::vendor::expect(&img[5..], &header);
        if got != want {
            return Err(format!("model {want:?} real {got:?}"));
        }
        Ok(match got {
            Ok(VendorSpecific::Virtio(_)) => "virtio",
            Ok(_) => "unspecified",
            Err(_) => "error",
        })
    };
    let bodies: [&[u8]; 3] = [
        &[18, 2, 4, 1, 2, 3, 0x10, 0x20, 0x30, 0x40, 0x51, 0x61, 0x71, 0x81, 0xa1, 0xb2, 0xc3, 0xd4],
        &[16, 1, 5, 9, 8, 7, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88],
        &[6, 1, 2, 3],
    ];
    let put = |b: &mut Vec<u8>, vendor: u16, device: u16, htype: u8, body: &[u8]| {
        b.clear();
        b.extend(vendor.to_le_bytes());
        b.extend(device.to_le_bytes());
        b.push(htype);
        b.extend(body);
    };
    const VENDORS: [u16; 8] = [0x1af4, 0xf41a, 0x1af5, 0x1af3, 0x0af4, 0x0000, 0xffff, 0x8086];
    let named = constants::get().words.iter().filter(|v| !VENDORS.contains(v));
    let vendors: Vec<u16> = VENDORS.iter().chain(named).copied().collect();
    let nv = vendors.len() as u64;
    const TYPES: [u8; 6] = [0, 1, 2, 0x80, 0x81, 0x82];
    ctx.sweep("virtio_ids", "every device id", 65536 * nv * 6 * 3, &|i, b| {
        let mut i = i;
        let (d, v, t, k) = (digit(&mut i, 65536), digit(&mut i, nv), digit(&mut i, 6), digit(&mut i, 3));
        put(b, vendors[v as usize], d as u16, TYPES[t as usize], bodies[k as usize]);
        true
    }, &check);
    const DEVICES: [u16; 8] = [0x1000, 0x0fff, 0x107f, 0x1080, 0x1041, 0x1001, 0x0000, 0xffff];
    ctx.sweep("virtio_ids", "every vendor id", 65536 * 8 * 3, &|i, b| {
        let mut i = i;
        let (v, d, k) = (digit(&mut i, 65536), digit(&mut i, 8), digit(&mut i, 3));
        put(b, v as u16, DEVICES[d as usize], 0, bodies[k as usize]);
        true
    }, &check);
    if ctx.thorough() {
        ctx.sweep("virtio_ids", "every vendor and device id", 1 << 32, &|i, b| {
            put(b, (i >> 16) as u16, i as u16, 0, bodies[1]);
            true
        }, &check);
    }
}

// ---------------------------------------------------------------- C07

/// Every decoder, every length, in combination with two deviating bytes near the start and with
/// every background after the structure
pub fn truncation(ctx: &Ctx) {
    for c in registry() {
        let t = c.target();
        let m = MENU3.len() as u64;
        let large = !c.cut_positions.is_empty();
        let bases: Vec<&Vec<u8>> = if ctx.thorough() { t.bases.iter().collect() } else { t.bases.iter().step_by((t.bases.len() / 6).max(1)).collect() };
        let pos: Vec<usize> = if large { c.cut_positions.clone() } else { (0..c.len.min(if ctx.thorough() { 20 } else { 12 })).collect() };
        let pairs: Vec<(usize, usize)> =
            (0..pos.len()).flat_map(|i| (i + 1..pos.len()).map(move |j| (i, j))).map(|(i, j)| (pos[i], pos[j])).collect();
        let np = pairs.len() as u64;
        for base in bases {
            let len = base.len() as u64;
            ctx.sweep(c.name, "lengths x 2bytes", np * m * m * (len + 1), &|i, b| {
                let mut i = i;
                let (l, (p, q)) = (digit(&mut i, len + 1) as usize, pairs[digit(&mut i, np) as usize]);
                let (v, w) = (MENU3[digit(&mut i, m) as usize], MENU3[digit(&mut i, m) as usize]);
                if q >= l {
                    return false;
                }
                b.clear();
                b.extend_from_slice(base);
                b[p] = v;
                b[q] = w;
                b.truncate(l);
                true
            }, &*c.check);
        }
        // every shape at every length, each byte with all values
        ctx.explore(&c.target().singles_only());
        ctx.cover_cuts(&c.target());
        let tails = patterns(64);
        for base in &t.bases {
            ctx.sweep(c.name, "more data", 5 * 65, &|i, b| {
                b.clear();
                b.extend_from_slice(base);
                b.extend_from_slice(&tails[(i % 5) as usize][..(i / 5) as usize]);
                true
            }, &*c.check);
        }
        // up to all the data a function can have behind the structure
        let region = if matches!(c.place, Place::Cap(..)) { 192 } else { ECS };
        let far = patterns(region);
        let some: Vec<&Vec<u8>> = t.bases.iter().step_by((t.bases.len() / if ctx.thorough() { 40 } else { 8 }).max(1)).collect();
        let ns = some.len() as u64;
        ctx.sweep(c.name, "more data, to the end", ns * 5 * region as u64, &|i, b| {
            let mut i = i;
            let (base, far, n) = (some[digit(&mut i, ns) as usize], &far[digit(&mut i, 5) as usize], i as usize);
            b.clear();
            b.extend_from_slice(base);
            b.extend_from_slice(&far[..n]);
            b.len() <= region && n > 64
        }, &*c.check);
    }
    // header: every length around its size
    let t = header_target("header", hdr::check);
    for base in &t.bases {
        ctx.sweep("header", "lengths", 4200, &|i, b| {
            b.clear();
            b.extend_from_slice(base);
            b.resize(i as usize, 0xa5);
            true
        }, &hdr::check);
    }
    ctx.explore(&Target::new("cardbus_optional", 0x50, hdr::check_cardbus_optional).singles_only());
}

// ---------------------------------------------------------------- C08 - C10, C23

pub fn header_target(name: &'static str, check: impl Fn(&[u8]) -> Verdict + Sync + Send + 'static) -> Target {
    let shapes: Vec<Vec<(usize, u8)>> = [0x00u8, 0x01, 0x02, 0x80, 0x81, 0x82, 0x03, 0x7f, 0xff, 0x40].iter().map(|&v| vec![(0x0e, v)]).collect();
    Target::new(name, 0x40, check).with_prefixes(0x40, &shapes)
}
pub fn header_decode(ctx: &Ctx) {
    ctx.explore(&header_target("header", hdr::check).boost(if ctx.thorough() { 6 } else { 4 }));
    // the bytes after the header are not part of it
    let t = header_target("header", hdr::check);
    for base in &t.bases {
        ctx.sweep("header", "longer", 5 * 100, &|i, b| {
            b.clear();
            b.extend_from_slice(base);
            b.extend((0..i / 5).map(|k| [0u8, 0xff, k as u8, 0xaa, 0x5c][(i % 5) as usize]));
            true
        }, &hdr::check);
    }
    // every layout byte with every pair of one other byte
    ctx.sweep("header", "layout x byte", 5 * 256 * 64 * 256, &|i, b| {
        let mut i = i;
        let pat = &t.bases[digit(&mut i, 5) as usize * 10];
        let (l, p, v) = (digit(&mut i, 256) as u8, digit(&mut i, 64) as usize, digit(&mut i, 256) as u8);
        b.clear();
        b.extend_from_slice(pat);
        b[0x0e] = l;
        if p == 0x0e {
            return v == l;
        }
        b[p] = v;
        true
    }, &hdr::check);
}

fn bars_check<const N: usize>(d: &[u8]) -> Verdict {
    let regs: [u32; N] = hdr::regs(d, 0);
    let list = BaseAddresses::new(regs);
    hdr::same_bars(&list, regs)?;
    same(&list, &BaseAddresses::new(regs))?;
    let n = list.clone().count();
    steps(n as u64 + 1);
    Ok(match n {
        0 => "none",
        1 => "one",
        _ => "several",
    })
}
pub fn base_addresses(ctx: &Ctx) {
    // all register files over the menu
    ctx.sweep("base_addresses_1", "registers", bar_states(1), &|i, b| bar_image(i, 1, b), &bars_check::<1>);
    ctx.sweep("base_addresses_2", "registers", bar_states(2), &|i, b| bar_image(i, 2, b), &bars_check::<2>);
    ctx.sweep("base_addresses_3", "registers", bar_states(3), &|i, b| bar_image(i, 3, b), &bars_check::<3>);
    ctx.sweep("base_addresses_4", "registers", bar_states(4), &|i, b| bar_image(i, 4, b), &bars_check::<4>);
    ctx.sweep("base_addresses_5", "registers", bar_states(5), &|i, b| bar_image(i, 5, b), &bars_check::<5>);
    ctx.sweep("base_addresses_6", "registers", bar_states(6), &|i, b| bar_image(i, 6, b), &bars_check::<6>);
    if ctx.thorough() {
        ctx.sweep("base_addresses_7", "registers", bar_states(7), &|i, b| bar_image(i, 7, b), &bars_check::<7>);
    }
    // one register over its domain (see words32)
    words32(ctx, "base_addresses_1", &bars_check::<1>);
    // one register over its 32-bit menu x its neighbours, at every place
    let menu = dword_menu();
    let m = menu.len() as u64;
    let nb = BAR_MENU.len() as u64;
    ctx.sweep("base_addresses_6", "register at every place", 6 * m * nb * nb, &|i, b| {
        let mut i = i;
        let (r, v) = (digit(&mut i, 6) as usize, menu[digit(&mut i, m) as usize]);
        let (before, after) = (BAR_MENU[digit(&mut i, nb) as usize], BAR_MENU[digit(&mut i, nb) as usize]);
        b.clear();
        for k in 0..6 {
            let x = if k == r { v } else if k < r { before } else { after };
            b.extend_from_slice(&x.to_le_bytes());
        }
        true
    }, &bars_check::<6>);
    // 64-bit addresses: both halves over the menu
    ctx.sweep("base_addresses_2", "64 bit", m * m, &|i, b| {
        b.clear();
        b.extend_from_slice(&menu[(i % m) as usize].to_le_bytes());
        b.extend_from_slice(&menu[(i / m) as usize].to_le_bytes());
        true
    }, &bars_check::<2>);
    // any bits together
    let array = crate::covering::Array::new(24, 7);
    ctx.sweep("base_addresses_6", "bits together", array.rows, &|r, b| {
        array.row(r, b);
        true
    }, &bars_check::<6>);
    let array = crate::covering::Array::new(8, 7);
    ctx.sweep("base_addresses_2", "bits together", array.rows, &|r, b| {
        array.row(r, b);
        true
    }, &bars_check::<2>);
    // and in each combination of the six registers' kinds
    let array = crate::covering::Array::new(24, 3);
    const KINDS: [u8; 5] = [0x00, 0x01, 0x04, 0x08, 0x0c];
    ctx.sweep("base_addresses_6", "bits together, kinds", array.rows * 5u64.pow(6), &|i, b| {
        array.row(i % array.rows, b);
        let mut i = i / array.rows;
        for r in 0..6 {
            b[4 * r] = b[4 * r] & 0xf0 | KINDS[digit(&mut i, 5) as usize];
        }
        true
    }, &bars_check::<6>);
    // through the three headers and SR-IOV
    for (layout, n) in [(0u8, 6usize), (1, 2), (2, 1), (0x80, 6), (0x81, 2), (0x82, 1)] {
        let n5 = n.min(5) as u32;
        ctx.sweep("header", "base addresses", bar_states(n5), &|i, b| {
            let mut regs = vec![];
            bar_image(i, n5 as usize, &mut regs);
            if n == 6 {
                // the sixth repeats the first
                regs.extend_from_within(..4);
            }
            b.clear();
            b.resize(0x40, 0);
            b[0x0e] = layout;
            b[0x10..0x10 + regs.len()].copy_from_slice(&regs);
            true
        }, &hdr::check);
    }
    let sriov = find("sr_iov");
    ctx.sweep("sr_iov", "base addresses", bar_states(5), &|i, b| {
        let mut regs = vec![];
        bar_image(i, 5, &mut regs);
        regs.extend_from_within(4..8);
        b.clear();
        b.resize(sriov.len, 0x11);
        b[0x20..0x38].copy_from_slice(&regs);
        true
    }, &*sriov.check);
}

pub fn windows(ctx: &Ctx) {
    let halves: [u16; 8] = [0, 0xffff, 1, 0x8000, 0x1234, 0xfff0, 0x00ff, 0x7fff];
    // I/O window: both bytes in full x upper halves
    ctx.sweep("header", "io window", 65536 * 64, &|i, b| {
        let mut i = i;
        let (w, x, y) = (digit(&mut i, 65536) as u16, halves[digit(&mut i, 8) as usize], halves[digit(&mut i, 8) as usize]);
        b.clear();
        b.resize(0x40, 0);
        b[0x0e] = 1;
        b[0x1c..0x1e].copy_from_slice(&w.to_le_bytes());
        b[0x30..0x32].copy_from_slice(&x.to_le_bytes());
        b[0x32..0x34].copy_from_slice(&y.to_le_bytes());
        true
    }, &hdr::check);
    // upper halves in full
    let bytes: [u8; 10] = [0x00, 0x01, 0x10, 0x11, 0xf0, 0xf1, 0xff, 0x0f, 0x02, 0x21];
    ctx.sweep("header", "io window upper", 65536 * 100 * 4, &|i, b| {
        let mut i = i;
        let (w, x, y, k) = (digit(&mut i, 65536) as u16, bytes[digit(&mut i, 10) as usize], bytes[digit(&mut i, 10) as usize], digit(&mut i, 4) as usize);
        b.clear();
        b.resize(0x40, if k & 2 == 0 { 0 } else { 0xff });
        b[0x0e] = 1;
        b[0x1c] = x;
        b[0x1d] = y;
        let o = 0x30 + 2 * (k & 1);
        b[o..o + 2].copy_from_slice(&w.to_le_bytes());
        true
    }, &hdr::check);
    // prefetchable window
    let mut menu: Vec<u16> = (0..16).map(|k| 1u16 << k).collect();
    menu.extend([0, 0xffff, 0xfff0, 0xfff1, 0xabc0, 0xabc1, 0x0011, 0x0010, 0xfff2, 0x8001, 0x1235, 0x000f]);
    let m = menu.len() as u64;
    let uppers: [u32; 4] = [0, 0xffff_ffff, 0x0123_4567, 0x8000_0001];
    let full = if ctx.thorough() { 1u64 << 32 } else { 2 * m << 16 };
    ctx.sweep("header", "prefetchable window", full * 4, &|i, b| {
        let mut i = i;
        let u = digit(&mut i, 4) as usize;
        let (base, limit) = if full == 1 << 32 {
            (i as u16, (i >> 16) as u16)
        } else {
            let (x, y) = (i as u16, menu[((i >> 16) % m) as usize]);
            if (i >> 16) / m == 0 { (x, y) } else { (y, x) }
        };
        b.clear();
        b.resize(0x40, 0);
        b[0x0e] = 1;
        b[0x24..0x26].copy_from_slice(&base.to_le_bytes());
        b[0x26..0x28].copy_from_slice(&limit.to_le_bytes());
        b[0x28..0x2c].copy_from_slice(&uppers[u].to_le_bytes());
        b[0x2c..0x30].copy_from_slice(&uppers[(u + 1) % 4].to_le_bytes());
        true
    }, &hdr::check);
    // non-prefetchable window and bus numbers: any two adjacent registers
    let dw = dword_menu();
    let n = dw.len() as u64;
    ctx.sweep("header", "bridge registers", 3 * 12 * n * 16, &|i, b| {
        let mut i = i;
        let (l, r, v, w) = (digit(&mut i, 3) as u8, digit(&mut i, 12) as usize, dw[digit(&mut i, n) as usize], DWORDS[digit(&mut i, 16) as usize]);
        b.clear();
        b.resize(0x40, 0x11);
        b[0x0e] = l;
        let o = 0x10 + 4 * r;
        b[o..o + 4].copy_from_slice(&v.to_le_bytes());
        let o = if r == 11 { 0x10 } else { o + 4 };
        b[o..o + 4].copy_from_slice(&w.to_le_bytes());
        true
    }, &hdr::check);
    // CardBus windows
    for o in [0x2cusize, 0x34] {
        for k in 0..4usize {
            ctx.sweep("header", "cardbus io window", 65536 * 8 * 8 * 8, &|i, b| {
                let mut i = i;
                let w = digit(&mut i, 65536) as u16;
                b.clear();
                b.resize(0x40, 0);
                b[0x0e] = 2;
                for j in 0..4 {
                    let v = if j == k { w } else { halves[digit(&mut i, 8) as usize] };
                    b[o + 2 * j..o + 2 * j + 2].copy_from_slice(&v.to_le_bytes());
                }
                ctx.thorough() || i == 0 && b[o] & 0x40 == 0
            }, &hdr::check);
        }
    }
    ctx.explore(&Target::new("cardbus_optional", 0x44, hdr::check_cardbus_optional));
    ctx.explore(&header_target("header", hdr::check).positions(0x10..0x40).no_truncate().boost(2));
}

pub fn class_names(ctx: &Ctx) {
    static T: OnceLock<hdr::Classes> = OnceLock::new();
    ctx.sweep("class_code", "all class codes", 1 << 24, &|i, b| {
        b.clear();
        b.extend_from_slice(&(i as u32).to_le_bytes()[..3]);
        true
    }, &|d| {
        let t = T.get_or_init(hdr::classes);
        let c = ClassCode::from([d[0], d[1], d[2]]);
        same(&ClassCode { interface: d[0], sub: d[1], base: d[2] }, &c)?;
        let (want, got) = (t.meaning(d[2], d[1], d[0]), c.meaning());
        if want != got {
            return Err(format!("class {:02x}{:02x}{:02x}: {got:?}, should be {want:?}", d[2], d[1], d[0]));
        }
        Ok(match got {
            (_, _, Some(_)) => "interface named",
            (_, Some(_), _) => "subclass named",
            ("Reserved", ..) => "reserved",
            _ => "class named",
        })
    });
    // as it sits in a header
    ctx.sweep("class_code_header", "all class codes", 1 << 24, &|i, b| {
        b.clear();
        b.resize(0x40, 0);
        b[9..12].copy_from_slice(&(i as u32).to_le_bytes()[..3]);
        true
    }, &|d| {
        let t = T.get_or_init(hdr::classes);
        let h = Header::try_from(d).map_err(|e| format!("{e:?}"))?;
        same(&t.meaning(d[11], d[10], d[9]), &h.class_code.meaning())?;
        Ok("named")
    });
}

// ---------------------------------------------------------------- C22

/// Registers that quantities are computed from, over their whole domain
pub fn quantities(ctx: &Ctx) {
    // decoder, shape overlay, bytes taking every value together
    let groups: Vec<(&str, Vec<(usize, u8)>, Vec<usize>)> = vec![
        ("power_management", vec![], vec![2, 3, 5]),
        ("power_management", vec![], vec![0, 1, 2]),
        ("msi", vec![], vec![0, 1]),
        ("msi_x", vec![], vec![0, 1]),
        ("sata", vec![], vec![2, 3, 4]),
        ("pci_x", vec![], vec![0, 1]),
        ("pci_x", vec![], vec![4, 5, 6]),
        ("pci_x_bridge", vec![], vec![0, 1]),
        ("pci_x_bridge", vec![], vec![0, 1, 2]),
        ("hypertransport", vec![(1, 0x00)], vec![7, 11, 15]),
        ("hypertransport", vec![(1, 0x20)], vec![7, 11, 15]),
        ("hypertransport", vec![(0, 0x01), (1, 0xa8)], vec![2, 3, 6]),
        ("hypertransport", vec![(1, 0xa8)], vec![0, 2, 9]),
        ("pci_express", vec![], vec![0, 1]),
        ("pci_express", vec![(0, 0x42)], vec![2, 3, 4]),
        ("pci_express", vec![(0, 0x42)], vec![4, 5]),
        ("pci_express", vec![(0, 0x42)], vec![6, 7]),
        ("pci_express", vec![(0, 0x42)], vec![10, 11]),
        ("pci_express", vec![(0, 0x42)], vec![16, 17]),
        ("pci_express", vec![(0, 0x62)], vec![18, 19, 20]),
        ("latency_tolerance", vec![], vec![0, 1]),
        ("latency_tolerance", vec![], vec![2, 3]),
        ("l1_pm_substates", vec![], vec![1, 2]),
        ("l1_pm_substates", vec![], vec![5, 6, 7]),
        ("l1_pm_substates", vec![], vec![2, 8]),
        ("readiness_time", vec![], vec![4, 5]),
        ("readiness_time", vec![], vec![6, 7]),
        ("readiness_time", vec![], vec![8, 9]),
        ("readiness_time", vec![], vec![10, 11]),
        ("power_budgeting", vec![], vec![4, 5, 6]),
        ("resizable_bar", vec![(8, 0x20)], vec![4, 5, 9]),
        ("resizable_bar", vec![(8, 0x20)], vec![6, 7, 9]),
        ("resizable_bar", vec![(8, 0x20)], vec![9, 10, 11]),
        ("vf_resizable_bar", vec![(8, 0x20)], vec![9, 10, 11]),
        ("dpc", vec![], vec![0, 1]),
        ("dpc", vec![], vec![4, 5]),
        ("virtual_channel", vec![], vec![0, 1]),
        ("virtual_channel", vec![], vec![8, 18]),
        ("multifunction_virtual_channel", vec![], vec![4, 5]),
        ("rc_link_declaration", vec![(1, 1), (4, 1)], vec![12, 16, 17]),
        ("rc_link_declaration", vec![(1, 1), (4, 1), (12, 3)], vec![20, 22, 23]),
        ("dynamic_power_allocation", vec![], vec![4, 5]),
        ("dynamic_power_allocation", vec![], vec![5, 6, 7]),
        ("tph_requester", vec![], vec![1, 2, 3]),
        ("multicast", vec![], vec![4, 5]),
        ("page_request", vec![], vec![0, 1]),
        ("precision_time", vec![], vec![0, 1, 5]),
        ("flattening_portal_bridge", vec![], vec![2, 3, 4]),
        ("enhanced_allocation", vec![], vec![2, 3, 5]),
        ("designated_vendor_specific", vec![(4, 0x98), (5, 0x1e), (6, 0x80), (7, 3), (8, 0), (9, 0)], vec![10, 11]),
        ("designated_vendor_specific", vec![(4, 0x98), (5, 0x1e), (6, 0x80), (7, 3), (8, 0), (9, 0)], vec![24, 25, 27]),
    ];
    for (name, shape, pos) in groups {
        let c = find(name);
        let t = c.target();
        let per = t.bases.len() / 5;
        // one base per background, the first overlay of each; the zero and ramp background for big products
        let which: &[usize] = if pos.len() == 3 && !ctx.thorough() { &[2] } else { &[0, 1, 2, 3, 4] };
        for &k in which {
            let mut base = t.bases[k * per].clone();
            for &(o, v) in &shape {
                base[o] = v;
            }
            ctx.sweep(c.name, "register domain", 1 << (8 * pos.len()), &|i, b| {
                b.clear();
                b.extend_from_slice(&base);
                for (j, &p) in pos.iter().enumerate() {
                    b[p] = (i >> (8 * j)) as u8;
                }
                true
            }, &*c.check);
        }
    }
    ctx.sweep("completion_timeout_constants", "constants", 1, &|_, b| {
        b.clear();
        true
    }, &|_| {
        use pcics::capabilities::pci_express::CompletionTimeoutRanges as R;
        for (got, want) in [(R::A, 50e-6..10e-3), (R::B, 10e-3..250e-3), (R::C, 250e-3..4.0), (R::D, 4.0..64.0)] {
            if (got.start - want.start).abs() > 1e-9 || (got.end - want.end).abs() > 1e-9 {
                return Err(format!("{got:?} should be {want:?}"));
            }
        }
        Ok("as specified")
    });
    // the size names: number n stands for 2^(20 + n) bytes
    ctx.sweep("bar_size_names", "constants", 44, &|i, b| {
        b.clear();
        b.push(i as u8);
        true
    }, &|img| {
        let n = img[0] as usize;
        let want = format!("{}{}", 1 << (n % 10), ["MB", "GB", "TB", "PB", "EB"][n / 10]);
        let got = pcics::extended_capabilities::resizable_bar::ResizableBarEntry::BAR_SIZES[n];
        if got == want { Ok("as specified") } else { Err(format!("{got}, should be {want}")) }
    });
}

// ---------------------------------------------------------------- C24

/// Variable-length tables: every count or size, with data for every length around what it needs
pub fn tables(ctx: &Ctx, walk_only: bool, only: Option<&str>) {
    // decoder, bytes holding the size (value v goes there), number of values, bytes needed by v
    type Put = fn(&mut [u8], u64);
    type Need = fn(u64) -> usize;
    let spaces: Vec<(&str, u64, Put, Need)> = vec![
        // TPH steering table: 11 bits of size, in the capability or in MSI-X
        ("tph_requester", 2048 * 4, |b, v| {
            b[1] = b[1] & !6 | ((v & 3) as u8) << 1;
            b[2] = (v >> 2) as u8;
            b[3] = b[3] & !7 | (v >> 10) as u8;
        }, |v| 8 + 2 * ((v >> 2) as usize + 1)),
        ("access_control_services", 512, |b, v| {
            b[0] = b[0] & !0x20 | ((v & 1) as u8) << 5;
            b[1] = (v >> 1) as u8;
        }, |v| if v == 1 { 4 + 32 } else { 4 + 4 * ((v >> 1) as usize).div_ceil(32) }),
        ("rc_link_declaration", 256, |b, v| b[1] = v as u8, |v| 12 + 16 * v as usize),
        ("resizable_bar", 256, |b, v| b[8] = v as u8, |v| 4 + 8 * (v as usize >> 5).max(1)),
        ("vf_resizable_bar", 256, |b, v| b[8] = v as u8, |v| 4 + 8 * (v as usize >> 5).max(1)),
        ("dynamic_power_allocation", 256, |b, v| b[4] = v as u8, |v| 16 + (v as usize & 31) + 1),
        ("protocol_multiplexing", 256, |b, v| b[4] = v as u8, |v| 16 + 4 * (v as usize & 63)),
        ("vendor_specific_ext", 4096, |b, v| {
            b[2] = b[2] & 0x0f | (v << 4) as u8;
            b[3] = (v >> 4) as u8;
        }, |v| (v as usize).saturating_sub(4)),
        ("designated_vendor_specific", 4096, |b, v| {
            b[6] = b[6] & 0x0f | (v << 4) as u8;
            b[7] = (v >> 4) as u8;
        }, |v| v as usize),
        ("enhanced_allocation", 64 * 8, |b, v| {
            b[0] = (v >> 3) as u8;
            let mut o = 2;
            while o + 16 <= b.len() {
                b[o] = b[o] & !7 | v as u8 & 7;
                o += 4 * (v as usize % 8 + 1);
            }
        }, |v| 2 + (v as usize >> 3) * 4 * (v as usize % 8 + 1)),
        ("enhanced_allocation_bridge", 64 * 8, |b, v| {
            b[0] = (v >> 3) as u8;
            let mut o = 6;
            while o + 16 <= b.len() {
                b[o] = b[o] & !7 | v as u8 & 7;
                o += 4 * (v as usize % 8 + 1);
            }
        }, |v| 6 + (v as usize >> 3) * 4 * (v as usize % 8 + 1)),
        ("vendor_specific", 256, |b, v| b[0] = v as u8, |v| (v as usize).saturating_sub(2)),
        ("vendor_specific_virtio", 256 * 8, |b, v| {
            b[0] = v as u8;
            b[1] = (v >> 8) as u8;
        }, |v| (v as usize & 0xff).saturating_sub(2)),
        // lanes: as many as there are data
        ("secondary_pci_express", 1, |_, _| (), |_| 8 + 64),
    ];
    for (name, n, put, need) in spaces {
        let c = find(name);
        if only.is_some_and(|p| p != c.property) {
            continue;
        }
        let w = c.walk.clone();
        let check: std::sync::Arc<CheckFn> = if walk_only {
            std::sync::Arc::new(move |d| {
                w(d);
                Ok("returned")
            })
        } else {
            c.check.clone()
        };
        let head = c.target().bases;
        let heads: Vec<&Vec<u8>> = [0usize, 1, 2].iter().map(|k| &head[head.len() / 5 * k]).collect();
        let backgrounds = patterns(4400);
        // lengths at the need and around it, at every smaller entry boundary, and none at all
        let deltas: [i64; 13] = [-17, -16, -9, -8, -5, -4, -3, -2, -1, 0, 1, 4, 33];
        let fixed: [usize; 12] = [0, 1, 2, 4, 8, 12, 16, 20, 24, 64, 1000, 4092];
        let nl = (deltas.len() + fixed.len()) as u64;
        let make = |k: usize, v: u64, len: usize, b: &mut Vec<u8>| {
            b.clear();
            b.extend_from_slice(heads[k % 3]);
            b.extend_from_slice(&backgrounds[k][b.len()..]);
            put(b, v);
            b.truncate(len);
        };
        ctx.sweep(c.name, "sizes", n * nl * 3, &|i, b| {
            let mut i = i;
            let (k, l, v) = (digit(&mut i, 3) as usize, digit(&mut i, nl) as usize, digit(&mut i, n));
            let len = if l < deltas.len() { need(v) as i64 + deltas[l] } else { fixed[l - deltas.len()] as i64 };
            if !(0..=4300).contains(&len) {
                return false;
            }
            make(k, v, len as usize, b);
            true
        }, &*check);
        // every length for some sizes
        let pick: Vec<u64> = if n <= 64 || ctx.thorough() && n <= 512 { (0..n).collect() } else {
            let mut p: Vec<u64> = (0..64).map(|k| if n == 1 { 0 } else { k * (n - 1) / 63 }).collect();
            p.extend((0..12).map(|k| 1 << k).filter(|&x| x < n));
            p.sort_unstable();
            p.dedup();
            p
        };
        let np = pick.len() as u64;
        let top: u64 = if ctx.thorough() { 4100 } else { 700 };
        ctx.sweep(c.name, "sizes x lengths", np * top * 2, &|i, b| {
            let mut i = i;
            let (k, l, v) = (digit(&mut i, 2) as usize, digit(&mut i, top) as usize, pick[digit(&mut i, np) as usize]);
            make(1 + k, v, l, b);
            true
        }, &*check);
    }
    arbitration(ctx, walk_only, only);
    large_tables(ctx, walk_only, only);
}

/// The largest tables there are, with every byte of them changed: no entry is special
fn large_tables(ctx: &Ctx, walk_only: bool, only: Option<&str>) {
    type Put = fn(&mut [u8]);
    let spaces: Vec<(&str, usize, Put)> = vec![
        ("tph_requester", 8 + 128, |b| {
            b[1] = b[1] & !6 | 2;
            b[2] = 63;
            b[3] &= !7;
        }),
        ("access_control_services", 4 + 32, |b| {
            b[0] |= 0x20;
            b[1] = 255;
        }),
        ("access_control_services", 4 + 32, |b| {
            b[0] |= 0x20;
            b[1] = 0;
        }),
        ("rc_link_declaration", 12 + 16 * 255, |b| b[1] = 255),
        ("resizable_bar", 4 + 48, |b| b[8] = b[8] & 0x1f | 6 << 5),
        ("vf_resizable_bar", 4 + 48, |b| b[8] = b[8] & 0x1f | 6 << 5),
        ("dynamic_power_allocation", 16 + 32, |b| b[4] |= 31),
        ("protocol_multiplexing", 16 + 4 * 63, |b| b[4] |= 63),
        ("vendor_specific_ext", 4095 - 4, |b| {
            b[2] |= 0xf0;
            b[3] = 0xff;
        }),
        ("vendor_specific", 253, |b| b[0] = 255),
        ("enhanced_allocation", 2 + 63 * 12, |b| {
            b[0] = 63;
            for e in 0..63 {
                b[2 + 12 * e] = b[2 + 12 * e] & !7 | 2;
                b[2 + 12 * e + 4] &= !2;
                b[2 + 12 * e + 8] &= !2;
            }
        }),
        ("enhanced_allocation", 2 + 63 * 20, |b| {
            b[0] = 63;
            for e in 0..63 {
                b[2 + 20 * e] = b[2 + 20 * e] & !7 | 4;
                b[2 + 20 * e + 4] |= 2;
                b[2 + 20 * e + 8] |= 2;
            }
        }),
        ("secondary_pci_express", 8 + 64, |_| ()),
        ("virtual_channel", 12 + 8 * 12 + 64, |b| {
            b[0] = b[0] & !7 | 7;
            b[7] = 7;
            b[8] = b[8] & !0xe | 6;
        }),
        ("multifunction_virtual_channel", 16 + 8 * 12 + 64, |b| {
            b[4] = b[4] & !7 | 7;
            b[11] = 7;
            b[12] = b[12] & !0xe | 6;
        }),
    ];
    for (name, len, put) in spaces {
        let c = find(name);
        if only.is_some_and(|p| p != c.property) {
            continue;
        }
        let w = c.walk.clone();
        let check: std::sync::Arc<CheckFn> = if walk_only {
            std::sync::Arc::new(move |d| {
                w(d);
                Ok("returned")
            })
        } else {
            c.check.clone()
        };
        let values: Vec<u8> = if len <= 300 || ctx.thorough() { (0..=255).collect() } else { vec![0x00, 0xff, 0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x55, 0xaa] };
        let nv = values.len() as u64;
        for base in patterns(len) {
            ctx.sweep(c.name, "large table", len as u64 * nv, &|i, b| {
                let mut i = i;
                let (v, at) = (values[digit(&mut i, nv) as usize], digit(&mut i, len as u64) as usize);
                b.clear();
                b.extend_from_slice(&base);
                put(b);
                b[at] = v;
                true
            }, &*check);
        }
    }
}

/// Virtual channel arbitration tables: every table offset, selection and entry size
fn arbitration(ctx: &Ctx, walk_only: bool, only: Option<&str>) {
    for (name, at, decode_from) in [("virtual_channel", 0usize, 4usize), ("multifunction_virtual_channel", 4, 0)] {
        let c = find(name);
        if only.is_some_and(|p| p != c.property) {
            continue;
        }
        let w = c.walk.clone();
        let check: std::sync::Arc<CheckFn> = if walk_only {
            std::sync::Arc::new(move |d| {
                w(d);
                Ok("returned")
            })
        } else {
            c.check.clone()
        };
        // VC arbitration table: offset x select x length
        let selects = 8u64;
        let offsets: u64 = 256;
        let lens: Vec<usize> = vec![12, 24, 36, 60, 100, 200, 300, 700, 4096];
        let nl = lens.len() as u64;
        let background = &patterns(4200)[2];
        ctx.sweep(c.name, "vc arbitration", offsets * selects * (nl + 34), &|i, b| {
            let mut i = i;
            let (off, sel, l) = (digit(&mut i, offsets) as u8, digit(&mut i, selects) as u8, digit(&mut i, nl + 34) as usize);
            b.clear();
            b.extend_from_slice(background);
            b[at] = 0;
            b[at + 7] = off;
            b[at + 8] = b[at + 8] & !0xe | sel << 1;
            b[at + 15] = 0;
            // ends of the table, give or take
            let len = if l < lens.len() { lens[l] } else {
                let k = l - lens.len();
                (off as usize * 16 + [0, 16, 32, 64][k % 4] + k / 4).saturating_sub(decode_from + 4)
            };
            b.truncate(len);
            true
        }, &*check);
        // port / function arbitration table of each channel: entry size x selection x offset
        ctx.sweep(c.name, "port arbitration", 4 * 8 * 256 * 8 * 6, &|i, b| {
            let mut i = i;
            let (bits, sel, off, vc, l) = (digit(&mut i, 4) as u8, digit(&mut i, 8) as u8, digit(&mut i, 256) as u8, digit(&mut i, 8) as usize, digit(&mut i, 6) as usize);
            b.clear();
            b.extend_from_slice(background);
            b[at] = vc as u8;
            b[at + 1] = bits << 2;
            b[at + 7] = 0;
            for e in 0..8 {
                let o = at + 12 + 12 * e;
                b[o + 3] = if e == vc { off } else { 0 };
                b[o + 6] = b[o + 6] & !0xe | sel << 1;
            }
            let size = [0usize, 32, 64, 128, 128, 256, 0, 0][sel as usize] * (1 << bits) / 8;
            let end = (off as usize * 16 + size).saturating_sub(decode_from);
            b.truncate([end, end + 1, end.saturating_sub(1), 4096, end.saturating_sub(16), at + 12 + 12 * vc][l]);
            true
        }, &*check);
    }
}

// ---------------------------------------------------------------- C25

/// Enhanced Allocation as built with the feature that takes entries by their real size
pub fn ea_feature(ctx: &Ctx) {
    assert!(cfg!(feature = "ea_real"), "built without the feature");
    for c in registry().into_iter().filter(|c| c.name.starts_with("enhanced_allocation")) {
        ctx.explore(&c.target());
        // every combination of declared sizes and address widths of two entries
        let o = if c.name.ends_with("bridge") { 6usize } else { 2 };
        ctx.sweep(c.name, "entry sizes", 8 * 16 * 8 * 16 * 64, &|i, b| {
            let mut i = i;
            let (s1, w1, s2, w2, n) = (digit(&mut i, 8) as u8, digit(&mut i, 16) as usize, digit(&mut i, 8) as u8, digit(&mut i, 16) as usize, digit(&mut i, 64) as u8);
            b.clear();
            b.extend((0..o + 60).map(|k| (k as u8).wrapping_mul(0x11) & !2));
            b[0] = n;
            b[o] = b[o] & !7 | s1;
            b[o + 4] |= (w1 as u8 & 1) << 1;
            b[o + 8] |= (w1 as u8 & 2) | (w1 as u8 >> 2 & 1);
            let real = 12 + 4 * (w1 & 1) + 4 * (w1 >> 1 & 1);
            b[o + real] = b[o + real] & !7 | s2;
            b[o + real + 4] |= (w2 as u8 & 1) << 1;
            b[o + real + 8] |= w2 as u8 & 2;
            true
        }, &*c.check);
    }
    crate::iters::tables(ctx, "enhanced_allocation");
    crate::digest::compare(ctx);
    let _ = ea::m_resource_definition;
}
