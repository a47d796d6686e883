//! C26: histories of the library's iterators. Every iterator is stepped to its end and beyond,
//! copied at every position, and compared at every pair of positions with one over other data.

use crate::chains::{cap_zoo, digit, ext_zoo};
use crate::*;
use pcics::capabilities::enhanced_allocation::EnhancedAllocationEntries;
use pcics::capabilities::Capabilities;
use pcics::extended_capabilities::access_control_services::EgressControlVectors;
use pcics::extended_capabilities::multifunction_virtual_channel as mfvc;
use pcics::extended_capabilities::protocol_multiplexing::PmuxProtocolArray;
use pcics::extended_capabilities::resizable_bar::ResizableBar;
use pcics::extended_capabilities::root_complex_link_declaration::LinkEntries;
use pcics::extended_capabilities::secondary_pci_express::EqualizationControlLanes;
use pcics::extended_capabilities::virtual_channel as vc;
use pcics::extended_capabilities::ExtendedCapabilities;
use pcics::header::{BaseAddresses, Header};
use std::fmt::Debug;

/// More steps than any table here has entries
const LIMIT: usize = 2100;
/// Calls after the end
const BEYOND: usize = 3;

struct Trace<I: Iterator> {
    /// The iterator before each of its steps, and at its end
    at: Vec<I>,
    items: Vec<I::Item>,
}
/// Step to the end and beyond
fn trace<I: Iterator + Clone>(mut it: I) -> Result<Trace<I>, String>
where
    I::Item: PartialEq + Debug,
{
    let mut t = Trace { at: vec![], items: vec![] };
    loop {
        t.at.push(it.clone());
        match it.next() {
            Some(x) => t.items.push(x),
            None => break,
        }
        steps(1);
        if t.items.len() > LIMIT {
            return Err("does not end".into());
        }
    }
    for n in 1..=BEYOND {
        if let Some(x) = it.next() {
            return Err(format!("call {n} after the end delivers {x:?}"));
        }
    }
    Ok(t)
}
/// What an iterator still has to deliver is what its predecessors in the trace delivered
fn copies<I: Iterator + Clone + PartialEq>(t: &Trace<I>) -> Result<(), String>
where
    I::Item: PartialEq + Debug,
{
    // all positions of short tables, some of the long
    let every = (t.at.len() / 64).max(1);
    for (k, it) in t.at.iter().enumerate().step_by(every) {
        let copy = it.clone();
        if copy != *it {
            return Err(format!("a copy after {k} steps compares unequal"));
        }
        let mut n = k;
        for x in copy {
            if t.items.get(n) != Some(&x) {
                return Err(format!("a copy after {k} steps delivers {x:?} as number {n}, the original {:?}", t.items.get(n)));
            }
            n += 1;
        }
        if n != t.items.len() {
            return Err(format!("a copy after {k} steps ends after {n} of {}", t.items.len()));
        }
        // the other ways to step
        let left = t.items.len() - k;
        let (low, high) = it.size_hint();
        if low > left || high.map_or(false, |h| h < left) {
            return Err(format!("after {k} steps announces {low} to {high:?} items, {left} are left"));
        }
        if it.clone().count() != left {
            return Err(format!("after {k} steps counts {} items, {left} are left", it.clone().count()));
        }
        if it.clone().last().as_ref() != t.items[k..].last() {
            return Err(format!("after {k} steps the last is {:?} instead of {:?}", it.clone().last(), t.items[k..].last()));
        }
        for skip in [0, 1, 2, 5, left.saturating_sub(1), left, left + 1] {
            let mut skipping = it.clone();
            let x = skipping.nth(skip);
            if x.as_ref() != t.items.get(k + skip) {
                return Err(format!("after {k} steps, {skip} skipped: {x:?} instead of {:?}", t.items.get(k + skip)));
            }
            let y = skipping.next();
            if y.as_ref() != t.items.get(k + skip + 1) {
                return Err(format!("after {k} steps, {skip} skipped, then: {y:?} instead of {:?}", t.items.get(k + skip + 1)));
            }
        }
    }
    Ok(())
}
/// Iterators that compare equal have the same left to deliver
fn equal<I: Iterator + Clone + PartialEq>(a: &Trace<I>, b: &Trace<I>) -> Result<usize, String>
where
    I::Item: PartialEq + Debug,
{
    let mut n = 0;
    for (k, x) in a.at.iter().enumerate() {
        for (l, y) in b.at.iter().enumerate() {
            if (k.abs_diff(l) > 2 && k > 8 && l > 8) || x != y {
                continue;
            }
            n += 1;
            let (left, right) = (&a.items[k..], &b.items[l..]);
            if left != right {
                return Err(format!("equal after {k} and {l} steps, but {left:?} and {right:?} are still to come"));
            }
        }
    }
    Ok(n)
}
fn pair<I: Iterator + Clone + PartialEq>(a: I, again: I, b: I) -> Verdict
where
    I::Item: PartialEq + Debug,
{
    let (ta, tb, tc) = (trace(a)?, trace(b)?, trace(again)?);
    copies(&ta)?;
    if ta.items != tc.items || ta.at != tc.at {
        return Err("two iterators over the same bytes differ".into());
    }
    Ok(if equal(&ta, &tb)? > 0 { "equal at some point" } else { "never equal" })
}

/// image: parameters and lengths of both, then the bytes of both
fn parts(img: &[u8]) -> ([u8; 2], Vec<u8>, Vec<u8>) {
    let (n, m) = (img[2] as usize, img[3] as usize);
    ([img[0], img[1]], img[4..4 + n].to_vec(), img[4 + n..4 + n + m].to_vec())
}
fn put(b: &mut Vec<u8>, p: u8, q: u8, x: &[u8], y: &[u8]) {
    b.clear();
    b.extend([p, q, x.len() as u8, y.len() as u8]);
    b.extend_from_slice(x);
    b.extend_from_slice(y);
}

macro_rules! both {
    ($name:ident, |$p:ident, $d:ident| $make:expr) => {
        fn $name(img: &[u8]) -> Verdict {
            let ([p, q], a, b) = parts(img);
            let again = a.clone();
            let x = {
                let ($p, $d) = (p, &a[..]);
                let _ = $p;
                $make
            };
            let y = {
                let ($p, $d) = (p, &again[..]);
                let _ = $p;
                $make
            };
            let z = {
                let ($p, $d) = (q, &b[..]);
                let _ = $p;
                $make
            };
            match (x, y, z) {
                (Some(x), Some(y), Some(z)) => pair(x, y, z),
                _ => Ok("not decoded"),
            }
        }
    };
}
both!(vc_table, |_p, d| Some(vc::VcArbitrationTable::new(d)));
both!(port_table, |p, d| Some(vc::PortArbitrationTable::new(d, 1 << (p & 3))));
both!(function_table, |p, d| Some(mfvc::FunctionArbitrationTable::new(d, 1 << (p & 3))));
both!(egress, |p, d| Some(EgressControlVectors::new(d, p as usize)));
both!(pmux, |_p, d| Some(PmuxProtocolArray::new(d)));
both!(links, |p, d| Some(LinkEntries::new(d, p)));
both!(rebar, |_p, d| ResizableBar::try_from(d).ok());
both!(ea, |p, d| Some(EnhancedAllocationEntries::new(d, p)));
both!(channels, |p, d| Some(vc::ExtendedVirtualChannels::new(d, p & 7)));
both!(mf_channels, |p, d| Some(mfvc::ExtendedVirtualChannels::new(d, p & 7, 1 << (p >> 3 & 3))));

/// Not a copyable iterator: it ends for good and delivers the same again
fn lanes(img: &[u8]) -> Verdict {
    let (_, a, _) = parts(img);
    let mut it = EqualizationControlLanes::new(&a);
    let items: Vec<_> = it.by_ref().take(LIMIT).collect();
    steps(items.len() as u64);
    for n in 1..=BEYOND {
        if let Some(x) = it.next() {
            return Err(format!("call {n} after the end delivers {x:?}"));
        }
    }
    if !EqualizationControlLanes::new(&a).eq(items) {
        return Err("delivers something else the second time".into());
    }
    Ok("ended")
}

fn bars<const N: usize>(img: &[u8]) -> Verdict {
    let (_, a, b) = parts(img);
    let regs = |d: &[u8]| BaseAddresses::<N>::new(core::array::from_fn(|i| crate::bits::u32at(d, 4 * i)));
    pair(regs(&a), regs(&a), regs(&b))
}

/// image: a function's, the place of a byte and another value for it
fn change(img: &[u8]) -> (&[u8], Vec<u8>) {
    let (img, at) = img.split_at(img.len() - 3);
    let mut other = img.to_vec();
    other[at[0] as usize | (at[1] as usize) << 8] = at[2];
    (img, other)
}
fn lists(img: &[u8]) -> Verdict {
    let (a, b) = change(img);
    let (ha, hb) = (Header::try_from(a).map_err(|e| format!("{e:?}"))?, Header::try_from(&b[..]).map_err(|e| format!("{e:?}"))?);
    let (ta, tb) = (trace(Capabilities::new(&a[0x40..], &ha))?, trace(Capabilities::new(&b[0x40..], &hb))?);
    copies(&tb)?;
    equal(&tb, &tb)?;
    Ok(if equal(&ta, &tb)? > 0 { "equal at some point" } else { "never equal" })
}
fn ext_lists(img: &[u8]) -> Verdict {
    let (a, b) = change(img);
    let (ta, tb) = (trace(ExtendedCapabilities::new(a))?, trace(ExtendedCapabilities::new(&b))?);
    copies(&tb)?;
    equal(&tb, &tb)?;
    Ok(if equal(&ta, &tb)? > 0 { "equal at some point" } else { "never equal" })
}

pub fn run(ctx: &Ctx) {
    tables(ctx, "");
    lists_as_values(ctx);
}
pub fn tables(ctx: &Ctx, only: &str) {
    // iterator, data lengths, parameters
    type Space = (&'static str, fn(&[u8]) -> Verdict, Vec<usize>, Vec<u8>);
    let spaces: Vec<Space> = vec![
        ("vc_arbitration_table", vc_table, (0..=5).chain([16]).collect(), vec![0]),
        ("port_arbitration_table", port_table, (0..=4).chain([16]).collect(), vec![0, 1, 2, 3]),
        ("function_arbitration_table", function_table, (0..=4).chain([16]).collect(), vec![0, 1, 2, 3]),
        ("egress_control_vectors", egress, (0..=9).collect(), vec![0, 1, 2, 7, 8, 31, 32, 33, 40, 63, 64, 65, 255]),
        ("pmux_protocol_array", pmux, (0..=13).collect(), vec![0]),
        ("link_entries", links, (0..=33).chain([48]).collect(), vec![0, 1, 2, 3, 255]),
        ("resizable_bar", rebar, (0..=21).chain([52]).collect(), vec![0]),
        ("enhanced_allocation_entries", ea, (0..=41).step_by(1).collect(), vec![0, 1, 2, 3, 63]),
        ("virtual_channels", channels, (0..=37).collect(), vec![0, 1, 2, 7]),
        ("multifunction_virtual_channels", mf_channels, (0..=60).step_by(3).chain([124]).collect(), vec![0, 1, 9, 0x13, 0x1f]),
        ("equalization_control_lanes", lanes, (0..=9).chain([64]).collect(), vec![0]),
        ("base_addresses", bars::<6>, vec![24], vec![0]),
        ("base_addresses of a bridge", bars::<2>, vec![8], vec![0]),
        ("base_addresses of a CardBus bridge", bars::<1>, vec![4], vec![0]),
    ];
    for (name, check, lens, params) in spaces.into_iter().filter(|s| s.0.starts_with(only)) {
        let mut bases: Vec<(u8, Vec<u8>)> = vec![];
        for &p in &params {
            for &n in &lens {
                for mut d in patterns(n) {
                    if name == "resizable_bar" && n > 8 {
                        // a number of BARs that is accepted
                        d[8] = d[8] & 0x1f | 2 << 5;
                    }
                    if name == "multifunction_virtual_channels" && n > 0x16 {
                        // a table within the data, 32 phases
                        d[0x13] = 2;
                        d[0x16] = d[0x16] & !0xe | 2;
                    }
                    bases.push((p, d));
                }
            }
        }
        // parameters and lengths against each other
        let nb = bases.len() as u64;
        ctx.sweep(name, "pairs", nb * nb, &|i, b| {
            let mut i = i;
            let (x, y) = (&bases[digit(&mut i, nb) as usize], &bases[digit(&mut i, nb) as usize]);
            put(b, x.0, y.0, &x.1, &y.1);
            true
        }, &check);
        // one byte changed
        let values: Vec<u8> = (0..=255).collect();
        for (p, d) in &bases {
            ctx.sweep(name, "one byte", d.len() as u64 * 256, &|i, b| {
                let mut i = i;
                let (o, v) = (digit(&mut i, d.len() as u64) as usize, values[digit(&mut i, 256) as usize]);
                put(b, *p, *p, d, d);
                let at = 4 + d.len() + o;
                b[at] != v && {
                    b[at] = v;
                    true
                }
            }, &check);
        }
        if !ctx.thorough() {
            continue;
        }
        for (p, d) in &bases {
            let (n, m) = (d.len() as u64, MENU.len() as u64);
            ctx.sweep(name, "two bytes", n * n * m * m, &|i, b| {
                let mut i = i;
                let (o, q, v, w) = (digit(&mut i, n) as usize, digit(&mut i, n) as usize, digit(&mut i, m) as usize, digit(&mut i, m) as usize);
                put(b, *p, *p, d, d);
                // one in each
                b[4 + o] = MENU[v];
                b[4 + d.len() + q] = MENU[w];
                true
            }, &check);
        }
    }
}
/// The lists themselves
fn lists_as_values(ctx: &Ctx) {
    for img in cap_zoo() {
        ctx.sweep("capabilities", "one byte", img.len() as u64 * 256, &|i, b| {
            let (o, v) = ((i / 256) as usize, i as u8);
            b.clear();
            b.extend_from_slice(&img);
            b.extend([o as u8, (o >> 8) as u8, v]);
            true
        }, &lists);
    }
    for img in ext_zoo() {
        const V: [u8; 5] = [0x00, 0xff, 0x10, 0x04, 0x81];
        ctx.sweep("extended_capabilities", "one byte", img.len() as u64 * 5, &|i, b| {
            let (o, v) = ((i / 5) as usize, V[i as usize % 5]);
            b.clear();
            b.extend_from_slice(&img);
            b.extend([o as u8, (o >> 8) as u8, v]);
            true
        }, &ext_lists);
    }
}
