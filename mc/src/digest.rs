//! The builds with and without the entry-size feature against each other: everything but the
//! allocation entries themselves is reported the same by both.
//!
//! `pcics-mc C25 --digests` prints a digest of what is reported for each block of states; the
//! checker of the other build compares its own with them.

use std::collections::HashMap;
use std::process::Command;
use std::sync::Arc;

use pcics::{Capabilities, ExtendedCapabilities, Header};

use crate::chains::{cap_zoo, ext_zoo};
use crate::registry::registry;
use crate::*;

type Walk = Arc<dyn Fn(&[u8]) + Sync + Send>;

/// Name, images, what to do with them
fn subjects() -> Vec<(&'static str, Vec<Vec<u8>>, Walk)> {
    let mut v: Vec<(&'static str, Vec<Vec<u8>>, Walk)> = vec![
        ("header", patterns(64), Arc::new(|d| sink(&Header::try_from(d)))),
        ("capabilities", cap_zoo(), Arc::new(|d| {
            if let Ok(h) = Header::try_from(d) {
                // the entries of a list end where the feature says
                let other = |c: &pcics::capabilities::Capability| !matches!(c.kind, pcics::capabilities::CapabilityKind::EnhancedAllocation(_));
                Capabilities::new(&d[0x40..], &h).take(100).for_each(|c| {
                    if c.as_ref().map_or(true, other) {
                        sink(&c)
                    }
                });
            }
        })),
        ("extended_capabilities", ext_zoo(), Arc::new(|d| ExtendedCapabilities::new(d).take(1100).for_each(|c| sink(&c)))),
    ];
    for c in registry().into_iter().filter(|c| !c.name.starts_with("enhanced_allocation")) {
        let t = c.walk_target();
        let step = t.bases.len() / 5 / 12 + 1;
        v.push((c.name, t.bases.into_iter().step_by(step).collect(), c.walk.clone()));
    }
    v
}
/// image: the subject's, then the place of the byte that takes on the values
fn blocks(images: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for img in images {
        // every byte of a structure; the largest images in steps
        let step = if img.len() > 1024 { 13 } else { 1 };
        for at in (0..img.len()).step_by(step) {
            let mut b = img.clone();
            b.extend([at as u8, (at >> 8) as u8]);
            v.push(b);
        }
    }
    v
}
fn digest(walk: &Walk, block: &[u8]) -> u64 {
    let (img, at) = block.split_at(block.len() - 2);
    let at = at[0] as usize | (at[1] as usize) << 8;
    let values: &[u8] = if img.len() > 1024 { &[0x00, 0xff, 0x10] } else { &ALL };
    let mut d = img.to_vec();
    DIGEST.set(0);
    for &v in values {
        d[at] = v;
        if guarded(|| walk(&d)).is_err() {
            sink(&"panic");
        }
    }
    // and cut before that byte
    if guarded(|| walk(&img[..at])).is_err() {
        sink(&"panic");
    }
    steps(values.len() as u64);
    DIGEST.get()
}
const ALL: [u8; 256] = {
    let mut a = [0; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};
fn key(block: &[u8]) -> u64 {
    block.iter().fold(0xcbf2_9ce4_8422_2325, |h, &x| (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3))
}

/// Print the digests of all blocks
pub fn print() {
    let subjects = subjects();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let work: Vec<_> = subjects.iter().flat_map(|(name, images, walk)| blocks(images).into_iter().map(move |b| (*name, b, walk))).collect();
    let n = std::thread::available_parallelism().map_or(4, |x| x.get());
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let i = next.fetch_add(64, std::sync::atomic::Ordering::Relaxed);
                if i >= work.len() {
                    break;
                }
                let mut out = String::new();
                for (name, block, walk) in &work[i..(i + 64).min(work.len())] {
                    out.push_str(&format!("{name} {:x} {:x}\n", key(block), digest(walk, block)));
                }
                print!("{out}");
            });
        }
    });
}

/// Compare with the digests of the other build
pub fn compare(ctx: &Ctx) {
    let Ok(plain) = std::env::var("PCICS_MC_PLAIN") else {
        ctx.note("not compared with the build without the feature");
        return;
    };
    let out = Command::new(&plain).args(["C25", "--digests"]).output().expect("the build without the feature");
    assert!(out.status.success(), "the build without the feature: {}", out.status);
    let mut other: HashMap<(String, u64), u64> = HashMap::new();
    let text = String::from_utf8(out.stdout).expect("digests");
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let hex = |s: &str| u64::from_str_radix(s, 16).expect("digest");
        other.insert((f[0].to_string(), hex(f[1])), hex(f[2]));
    }
    let other = Arc::new(other);
    for (name, images, walk) in subjects() {
        let other = other.clone();
        let blocks = blocks(&images);
        ctx.sweep(name, "with and without the feature", blocks.len() as u64, &|i, b| {
            b.clear();
            b.extend_from_slice(&blocks[i as usize]);
            true
        }, &move |block: &[u8]| match other.get(&(name.to_string(), key(block))) {
            Some(d) if *d == digest(&walk, block) => Ok("reported the same"),
            Some(_) => Err("not reported as by the build without the feature".into()),
            None => Err("unknown to the build without the feature".into()),
        });
    }
}
