//! Bounded exhaustive exploration of pcics against reference models.
//!
//! A *state* is a memory image (the bytes handed to the library, with their length).
//! *Transitions* are deviations from a base image: overwriting a byte, overwriting a pair of
//! bytes, truncating. Every image within the stated bound is executed against the real library
//! and compared with a reference model. Nothing is sampled: the loops below are plain products.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod bits;
pub mod chains;
pub mod constants;
pub mod covering;
pub mod digest;
pub mod encode;
pub mod errors;
pub mod iters;
pub mod models;
pub mod registry;
pub mod special;
pub use bits::*;

/// Ok(outcome class) or Err(description of the disagreement)
pub type Verdict = Result<&'static str, String>;
pub type CheckFn = dyn Fn(&[u8]) -> Verdict + Sync + Send;

pub struct Target {
    pub name: &'static str,
    pub check: Box<CheckFn>,
    /// Base images, simplest first
    pub bases: Vec<Vec<u8>>,
    /// Byte positions that may deviate (empty: all)
    pub positions: Vec<usize>,
    /// Truncate to every length
    pub truncate: bool,
    /// Positions whose deviations are crossed with every length (empty: all)
    pub cut_positions: Vec<usize>,
    /// Cost of one state relative to a plain register decoder
    pub weight: u64,
    /// Skip two- and three-byte deviations
    pub singles_only: bool,
    /// Multiplies the budget
    pub boost: u64,
}

impl Target {
    pub fn new(
        name: &'static str,
        len: usize,
        check: impl Fn(&[u8]) -> Verdict + Sync + Send + 'static,
    ) -> Self {
        Target {
            name,
            check: Box::new(check),
            bases: patterns(len),
            positions: vec![],
            truncate: true,
            cut_positions: vec![],
            weight: 1,
            singles_only: false,
            boost: 1,
        }
    }
    /// Restart the base list from the given headers laid over every background pattern
    pub fn with_prefixes(mut self, len: usize, prefixes: &[Vec<(usize, u8)>]) -> Self {
        let mut out = vec![];
        for pat in patterns(len) {
            for p in prefixes {
                let mut img = pat.clone();
                for &(o, v) in p {
                    if o < img.len() {
                        img[o] = v;
                    }
                }
                out.push(img);
            }
        }
        self.bases = out;
        self
    }
    pub fn bases(mut self, b: Vec<Vec<u8>>) -> Self {
        self.bases = b;
        self
    }
    pub fn positions(mut self, p: impl IntoIterator<Item = usize>) -> Self {
        self.positions = p.into_iter().collect();
        self
    }
    pub fn singles_only(mut self) -> Self {
        self.singles_only = true;
        self
    }
    pub fn boost(mut self, n: u64) -> Self {
        self.boost = n;
        self
    }
    pub fn no_truncate(mut self) -> Self {
        self.truncate = false;
        self
    }
}

/// What an orthogonal array is laid over
struct Covered<'a> {
    /// Bytes that vary
    pos: Vec<usize>,
    /// Bytes that make the shape, and the rest of it
    shapes: Vec<(Vec<(usize, u8)>, &'a [u8])>,
}
impl<'a> Covered<'a> {
    fn new(t: &'a Target) -> Option<Self> {
        let np = patterns(0).len();
        let len = t.bases.first().map_or(0, Vec::len);
        if len == 0 || len > 1000 || t.bases.iter().any(|b| b.len() != len) {
            return None;
        }
        // the bytes that make the shape are the same in all backgrounds
        let ns = if t.bases.len() % np == 0 { t.bases.len() / np } else { 1 };
        let shapes = (0..ns)
            .map(|j| {
                let same = |p: usize| (1..np).all(|k| t.bases.get(j + k * ns).is_some_and(|b| b[p] == t.bases[j][p]));
                ((0..len).filter(|&p| same(p)).map(|p| (p, t.bases[j][p])).collect(), &t.bases[(j + 2 * ns) % t.bases.len()][..])
            })
            .collect();
        let pos = if t.positions.is_empty() { (0..len).collect() } else { t.positions.iter().copied().filter(|&p| p < len).collect() };
        Some(Covered { pos, shapes })
    }
    fn image(&self, (pins, base): &(Vec<(usize, u8)>, &[u8]), array: &covering::Array, row: u64, b: &mut Vec<u8>) -> bool {
        if self.pos.len() == base.len() {
            array.row(row, b);
        } else {
            b.clear();
            b.extend_from_slice(base);
            for (i, &p) in self.pos.iter().enumerate() {
                b[p] = array.byte(row, i);
            }
        }
        for &(p, v) in pins {
            b[p] = v;
        }
        true
    }
}

/// Background patterns: zeros, ones, position-distinct ramp, alternating, walking
pub fn patterns(len: usize) -> Vec<Vec<u8>> {
    vec![
        vec![0x00; len],
        vec![0xff; len],
        (0..len).map(|i| (i as u8).wrapping_mul(0x11).wrapping_add(0x13)).collect(),
        vec![0xaa; len],
        (0..len).map(|i| [0x55u8, 0x33, 0xcc, 0x0f, 0x96][i % 5]).collect(),
    ]
}

/// Byte values used where the full 256-value domain is too big
pub const MENU: [u8; 28] = [
    0x00, 0xff, 0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xdf,
    0xbf, 0x7f, 0x03, 0x0f, 0xf0, 0x3f, 0xc0, 0x55, 0xaa, 0x1f, 0x07, 0x21,
];

/// Register values: single bits, bit pairs, runs, their complements, a few constants
pub fn dword_menu() -> Vec<u32> {
    let mut v = vec![0, !0, 0x5555_5555, 0xaaaa_aaaa, 0x1234_5678, 0x8765_4321, 0x00ff_ff00, 0xdead_beef];
    for i in 0..32u32 {
        v.push(1 << i);
        v.push(!(1 << i));
        v.push((1u32 << i).wrapping_sub(1));
        v.push(!(1u32 << i).wrapping_sub(1));
        for j in i + 1..32 {
            v.push(1 << i | 1 << j);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}
pub const DWORDS: [u32; 16] = [
    0, !0, 1, 2, 3, 0x8000_0000, 0x7fff_ffff, 0x0000_ffff, 0xffff_0000, 0x00ff_00ff, 0xff00_ff00, 0x1234_5678, 0x0f0f_0f0f,
    0x0001_0000, 0xffff_fffe, 0x0000_0080,
];

pub const MENU3: [u8; 11] = [0x00, 0xff, 0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x5a];

#[derive(Default)]
struct Found {
    order: u64,
    target: String,
    image: Vec<u8>,
    msg: String,
}

pub struct Ctx {
    pub property: String,
    pub tier: String,
    start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    rejected: AtomicU64,
    classes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    found: Mutex<Option<Found>>,
    violations: AtomicU64,
    replay: Option<(String, Vec<u8>)>,
    pub replayed: AtomicBool,
}

thread_local! {
    static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Transitions taken by the library while judging the current state (list items delivered)
pub fn steps(n: u64) {
    STEPS.with(|s| s.set(s.get() + n));
}

/// Outcomes in which the implementation, rightly, delivered nothing to compare
const REJECTIONS: [&str; 6] = ["error", "cut", "no header", "does not fit", "nothing found", "empty list"];

const IDLE: u64 = u64::MAX;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Run `f`; a panic becomes Err
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| format!("PANIC {}", p.borrow())))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

impl Ctx {
    pub fn from_env(property: &str) -> Self {
        panic::set_hook(Box::new(|info| {
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{info}").replace('\n', " "));
        }));
        let args: Vec<String> = std::env::args().collect();
        let replay = args.iter().position(|a| a == "--replay").map(|i| {
            let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
            let get = |k: &str| {
                text.lines()
                    .find_map(|l| l.strip_prefix(k))
                    .map(|s| s.trim().to_string())
                    .unwrap_or_default()
            };
            (get("target:"), unhex(&get("image:")))
        });
        Ctx {
            property: property.into(),
            tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            start: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            validated: 0.into(),
            rejected: 0.into(),
            classes: Default::default(),
            samples: Default::default(),
            notes: Default::default(),
            found: Default::default(),
            violations: 0.into(),
            replay,
            replayed: false.into(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn violated(&self) -> bool {
        self.violations.load(Ordering::Relaxed) != 0
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 {
            v.push(s.into());
        }
    }

    fn record(&self, order: u64, target: &str, image: &[u8], msg: String) {
        self.violations.fetch_add(1, Ordering::Relaxed);
        let mut f = self.found.lock().unwrap();
        if f.as_ref().map_or(true, |x| order < x.order) {
            *f = Some(Found {
                order,
                target: target.into(),
                image: image.to_vec(),
                msg,
            });
        }
    }

    /// Enumerate `n` states in parallel. `make(i, buf)` fills the image of state `i` (false: not a
    /// state, e.g. equal to one counted before), `check` judges it.
    pub fn sweep(
        &self,
        target: &str,
        layer: &str,
        n: u64,
        make: &(dyn Fn(u64, &mut Vec<u8>) -> bool + Sync),
        check: &CheckFn,
    ) {
        if let Some((t, img)) = &self.replay {
            if t == target && !self.replayed.swap(true, Ordering::Relaxed) {
                let v = guarded(|| check(img)).unwrap_or_else(Err);
                println!("replay {target} {}: {v:?}", hex(img));
                if let Err(m) = v {
                    self.record(0, target, img, m);
                }
            }
            return;
        }
        if self.violated() || n == 0 {
            return;
        }
        // one written-out case of each sweep
        if self.samples.lock().unwrap().len() < 40 {
            let mut img = Vec::new();
            if make(n / 2, &mut img) {
                let mut h = hex(&img[..img.len().min(160)]);
                if img.len() > 160 {
                    h.push_str(&format!("... ({} bytes)", img.len()));
                }
                self.sample(format!("{target} [{layer}] {h}"));
            }
        }
        let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(16).min(n as usize);
        let chunk = (n / (threads as u64 * 16)).clamp(1, 1 << 16);
        let cursor = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let current: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(IDLE)).collect();
        let running = AtomicUsize::new(threads);
        std::thread::scope(|s| {
            s.spawn(|| self.watch(target, layer, &current, &running, make));
            for t in 0..threads {
                let (current, running, cursor, stop) = (&current, &running, &cursor, &stop);
                s.spawn(move || {
                    let current = &current[t];
                    let mut buf = Vec::new();
                    let mut count = 0u64;
                    let mut last: (&'static str, u64) = ("", 0);
                    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
                    loop {
                        let c = cursor.fetch_add(1, Ordering::Relaxed) as u64;
                        let lo = c * chunk;
                        if lo >= n || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in lo..(lo + chunk).min(n) {
                            if !make(i, &mut buf) {
                                continue;
                            }
                            count += 1;
                            current.store(i, Ordering::Relaxed);
                            match guarded(|| check(&buf)).unwrap_or_else(Err) {
                                Ok(cl) => {
                                    if std::ptr::eq(cl, last.0) {
                                        last.1 += 1;
                                    } else {
                                        if last.1 > 0 {
                                            *classes.entry(last.0).or_default() += last.1;
                                        }
                                        last = (cl, 1);
                                    }
                                }
                                Err(m) => {
                                    self.record(i, target, &buf, format!("[{layer}] {m}"));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                        }
                    }
                    current.store(IDLE, Ordering::Relaxed);
                    running.fetch_sub(1, Ordering::Relaxed);
                    if last.1 > 0 {
                        *classes.entry(last.0).or_default() += last.1;
                    }
                    self.states.fetch_add(count, Ordering::Relaxed);
                    self.transitions.fetch_add(STEPS.with(|s| s.take()) + if layer == "base" { 0 } else { count }, Ordering::Relaxed);
                    for (k, v) in &classes {
                        let to = if REJECTIONS.contains(k) { &self.rejected } else { &self.validated };
                        to.fetch_add(*v, Ordering::Relaxed);
                    }
                    let mut all = self.classes.lock().unwrap();
                    for (k, v) in classes {
                        *all.entry(format!("{target}:{k}")).or_default() += v;
                    }
                });
            }
        });
    }

    fn depth(&self, t: &Target) -> (usize, usize, usize) {
        let mut budget: u64 = if self.thorough() { 700_000_000 } else { 96_000_000 };
        if let Some(b) = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()) {
            budget = b;
        }
        budget = budget * t.boost / t.weight;
        let n = t.bases.len() as u64;
        let len = t.bases.first().map_or(0, Vec::len) as u64;
        let np = if t.positions.is_empty() { len } else { t.positions.len() as u64 };
        let pairs = np * np.saturating_sub(1) / 2;
        let full = (pairs * 65536).max(1);
        let menu = (pairs * (MENU.len() * MENU.len()) as u64 + np * 65536).max(1);
        let triple = (pairs * np.saturating_sub(2) / 3 * (MENU3.len() as u64).pow(3)).max(1);
        if n * full <= budget {
            budget -= n * full;
            return (n as usize, 0, (budget / triple).min(n) as usize);
        }
        let menu_bases = (budget / menu).clamp(1, n);
        budget = budget.saturating_sub(menu_bases * menu);
        let full_bases = (budget / 2 / full).min(n);
        budget -= full_bases * full;
        (full_bases as usize, menu_bases as usize, (budget / triple).min(n) as usize)
    }

    /// A state that keeps its thread busy for this long does not terminate (a state takes
    /// microseconds): report it and end the run, since the thread cannot be stopped.
    fn watch(
        &self,
        target: &str,
        layer: &str,
        current: &[AtomicU64],
        running: &AtomicUsize,
        make: &(dyn Fn(u64, &mut Vec<u8>) -> bool + Sync),
    ) {
        const STUCK_MS: u32 = 30_000;
        let mut seen: Vec<(u64, u32)> = vec![(IDLE, 0); current.len()];
        let mut nap = 0;
        while running.load(Ordering::Relaxed) > 0 {
            nap = (nap + 1u32).min(100);
            std::thread::sleep(std::time::Duration::from_millis(nap as u64));
            for (c, s) in current.iter().zip(&mut seen) {
                let i = c.load(Ordering::Relaxed);
                *s = if i != IDLE && i == s.0 { (i, s.1 + nap) } else { (i, 0) };
                if s.1 >= STUCK_MS {
                    let mut img = Vec::new();
                    make(i, &mut img);
                    self.record(i, target, &img, format!("[{layer}] does not return"));
                    self.conclude("", &[]);
                }
            }
        }
    }

    /// All images of the target within the deviation bound.
    ///
    /// Every base image is explored at depth 1 (each byte, all 256 values) crossed with every
    /// length. At depth 2 and 3 the budget decides, before anything runs, how many of the bases
    /// (in order) get every pair with all 65536 values, every pair over MENU plus every adjacent
    /// pair with all values, and every triple over MENU3. The choice is reported.
    pub fn explore(&self, t: &Target) {
        let s0 = self.states.load(Ordering::Relaxed);
        let depth = self.depth(t);
        if !t.singles_only && self.replay.is_none() {
            self.note(format!(
                "{}: {} bases of {} bytes; bases with all byte pairs x all values {}, with menu pairs {}, with menu triples {}",
                t.name, t.bases.len(), t.bases.first().map_or(0, Vec::len), depth.0, depth.1.max(depth.0), depth.2
            ));
        }
        for (bi, base) in t.bases.iter().enumerate() {
            let len = base.len();
            let pos: Vec<usize> = if t.positions.is_empty() {
                (0..len).collect()
            } else {
                t.positions.iter().copied().filter(|&p| p < len).collect()
            };
            let np = pos.len() as u64;
            // 0 deviations
            self.sweep(t.name, "base", 1, &|_, b| {
                b.clear();
                b.extend_from_slice(base);
                true
            }, &*t.check);
            // truncation x one byte deviation (every value)
            let lens = if t.truncate { len as u64 + 1 } else { 1 };
            if !t.cut_positions.is_empty() {
                self.sweep(t.name, "1byte", np * 256, &|i, b| {
                    let (p, v) = (pos[(i / 256) as usize], (i % 256) as u8);
                    b.clear();
                    b.extend_from_slice(base);
                    b[p] = v;
                    v != base[p]
                }, &*t.check);
            }
            let all = pos;
            let pos = if t.cut_positions.is_empty() { &all } else { &t.cut_positions };
            let np = pos.len() as u64;
            // large structures: menu values in the quick tier
            let values: Vec<u8> =
                if t.cut_positions.is_empty() || self.thorough() { (0..=255).collect() } else { MENU.to_vec() };
            let nv = values.len() as u64;
            self.sweep(t.name, "truncate", len as u64, &|i, b| {
                b.clear();
                b.extend_from_slice(base);
                b.truncate(i as usize);
                t.truncate
            }, &*t.check);
            self.sweep(t.name, "truncate+1byte", lens * np * nv, &|i, b| {
                let v = values[(i % nv) as usize];
                let p = pos[((i / nv) % np) as usize];
                let l = if t.truncate { (i / nv / np) as usize } else { len };
                if v == base[p] || p >= l {
                    return false;
                }
                b.clear();
                b.extend_from_slice(base);
                b[p] = v;
                b.truncate(l);
                true
            }, &*t.check);
            let pos = all;
            if t.singles_only {
                continue;
            }
            let (full, menu_bases, triple_bases) = depth;
            let pairs: Vec<(usize, usize)> = (0..pos.len())
                .flat_map(|i| (i + 1..pos.len()).map(move |j| (i, j)))
                .map(|(i, j)| (pos[i], pos[j]))
                .collect();
            let npairs = pairs.len() as u64;
            if bi < full {
                self.sweep(t.name, "2bytes", npairs * 65536, &|i, b| {
                    let (p, q) = pairs[(i >> 16) as usize];
                    let (v, w) = ((i >> 8) as u8, i as u8);
                    if v == base[p] || w == base[q] {
                        return false;
                    }
                    b.clear();
                    b.extend_from_slice(base);
                    b[p] = v;
                    b[q] = w;
                    true
                }, &*t.check);
            } else if bi < menu_bases {
                let m = MENU.len() as u64;
                // adjacent bytes (one 16-bit register) keep the full domain
                let adjacent: Vec<usize> = pos.iter().copied().filter(|p| pos.contains(&(p + 1))).collect();
                self.sweep(t.name, "2bytes-adjacent", adjacent.len() as u64 * 65536, &|i, b| {
                    let p = adjacent[(i >> 16) as usize];
                    let (v, w) = ((i >> 8) as u8, i as u8);
                    if v == base[p] || w == base[p + 1] {
                        return false;
                    }
                    b.clear();
                    b.extend_from_slice(base);
                    b[p] = v;
                    b[p + 1] = w;
                    true
                }, &*t.check);
                self.sweep(t.name, "2bytes-menu", npairs * m * m, &|i, b| {
                    let (p, q) = pairs[(i / m / m) as usize];
                    if q == p + 1 {
                        return false;
                    }
                    let (v, w) = (MENU[((i / m) % m) as usize], MENU[(i % m) as usize]);
                    if v == base[p] || w == base[q] {
                        return false;
                    }
                    b.clear();
                    b.extend_from_slice(base);
                    b[p] = v;
                    b[q] = w;
                    true
                }, &*t.check);
            }
            // whole registers (32 bits at even places): one over the long menu, two over the short one
            let regs: Vec<usize> = pos.iter().copied().filter(|p| p % 2 == 0 && (1..4).all(|k| pos.contains(&(p + k)))).collect();
            let menu = dword_menu();
            let nm = menu.len() as u64;
            self.sweep(t.name, "register", regs.len() as u64 * nm, &|i, b| {
                let (p, v) = (regs[(i / nm) as usize], menu[(i % nm) as usize]);
                b.clear();
                b.extend_from_slice(base);
                b[p..p + 4].copy_from_slice(&v.to_le_bytes());
                true
            }, &*t.check);
            if bi < full.max(menu_bases) {
                let nr = regs.len() as u64;
                let nd = DWORDS.len() as u64;
                self.sweep(t.name, "2registers", nr * nr * nd * nd, &|i, b| {
                    let (p, q) = (regs[(i / nd / nd / nr) as usize], regs[(i / nd / nd % nr) as usize]);
                    if q < p + 4 {
                        return false;
                    }
                    b.clear();
                    b.extend_from_slice(base);
                    b[p..p + 4].copy_from_slice(&DWORDS[(i / nd % nd) as usize].to_le_bytes());
                    b[q..q + 4].copy_from_slice(&DWORDS[(i % nd) as usize].to_le_bytes());
                    true
                }, &*t.check);
            }
            if bi < triple_bases {
                // three byte deviations over a small menu
                let m = MENU3.len() as u64;
                let tr: Vec<(usize, usize, usize)> = (0..pos.len())
                    .flat_map(|i| {
                        let pos = &pos;
                        (i + 1..pos.len()).flat_map(move |j| {
                            (j + 1..pos.len()).map(move |k| (pos[i], pos[j], pos[k]))
                        })
                    })
                    .collect();
                self.sweep(t.name, "3bytes-menu", tr.len() as u64 * m * m * m, &|i, b| {
                    let (p, q, r) = tr[(i / m / m / m) as usize];
                    let (v, w, x) = (
                        MENU3[((i / m / m) % m) as usize],
                        MENU3[((i / m) % m) as usize],
                        MENU3[(i % m) as usize],
                    );
                    if v == base[p] || w == base[q] || x == base[r] {
                        return false;
                    }
                    b.clear();
                    b.extend_from_slice(base);
                    b[p] = v;
                    b[q] = w;
                    b[r] = x;
                    true
                }, &*t.check);
            }
        }
        if !t.singles_only {
            self.constants(t);
            self.cover(t);
        }
        let s1 = self.states.load(Ordering::Relaxed);
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:<40} states={:>12} t={:.1}s", t.name, s1 - s0, self.start.elapsed().as_secs_f64());
        }
    }

    /// Registers that hold a number the library is written with: one, at every place and shift,
    /// and two, or one and a byte, each at every place
    fn constants(&self, t: &Target) {
        let c = constants::get();
        let put = |b: &mut Vec<u8>, p: usize, n: usize, v: u64| b[p..p + n].copy_from_slice(&v.to_le_bytes()[..n]);
        let fresh = |base: &[u8], b: &mut Vec<u8>| {
            b.clear();
            b.extend_from_slice(base);
        };
        // pairs are for the shapes first in the list
        let mut budget: u64 = if self.thorough() { 400_000_000 } else { 24_000_000 } * t.boost / t.weight;
        for base in &t.bases {
            let len = base.len();
            let mut vary = vec![t.positions.is_empty(); len];
            t.positions.iter().filter(|&&p| p < len).for_each(|&p| vary[p] = true);
            let room = |p: usize, n: usize| p + n <= len && vary[p..p + n].iter().all(|&v| v);
            let size = |v: u64| match v {
                0..=0xffff => 2,
                0x1_0000..=0xffff_ffff => 4,
                _ => 8,
            };
            // (place, bytes, value, bits that are replaced)
            let mut single: Vec<(usize, usize, u64, u64)> = vec![];
            let mut wide: Vec<(usize, usize, u64)> = vec![];
            let mut any: Vec<(usize, usize, u64)> = vec![];
            for p in 0..len {
                for &v in &c.wide {
                    let n = size(v);
                    if p % 2 == 0 && room(p, n) {
                        wide.push((p, n, v));
                    }
                    for n in [4, 8] {
                        let bits = 64 - v.leading_zeros();
                        if p % 2 == 1 || !room(p, n) || (n == 8 && bits <= 16) {
                            continue;
                        }
                        for shift in 0..=(8 * n as u32).saturating_sub(bits) {
                            if bits <= 8 * n as u32 {
                                single.push((p, n, v << shift, u64::MAX));
                                single.push((p, n, v << shift, u64::MAX >> (64 - bits) << shift));
                            }
                        }
                    }
                }
                if vary[p] {
                    any.extend(c.bytes.iter().map(|&v| (p, 1, v as u64)));
                }
            }
            any.extend(&wide);
            // costly decoders: as written only
            if single.len() as u64 * t.bases.len() as u64 * t.weight / t.boost > 40_000_000 && !self.thorough() {
                single = wide.iter().map(|&(p, n, v)| (p, n, v, u64::MAX)).collect();
            }
            self.sweep(t.name, "constant", single.len() as u64, &|i, b| {
                let (p, n, v, mask) = single[i as usize];
                fresh(base, b);
                let mut old = [0; 8];
                old[..n].copy_from_slice(&base[p..p + n]);
                put(b, p, n, u64::from_le_bytes(old) & !mask | v);
                true
            }, &*t.check);
            let nw = wide.len() as u64;
            if nw * any.len() as u64 > budget {
                any.retain(|&(_, n, _)| n > 1);
            }
            let na = any.len() as u64;
            if nw * na > budget {
                continue;
            }
            budget -= nw * na;
            self.sweep(t.name, "2constants", nw * na, &|i, b| {
                let ((p, n, v), (q, m, w)) = (wide[(i / na) as usize], any[(i % na) as usize]);
                // two wide ones in one order only
                if (p < q + m && q < p + n) || (m > 1 && q < p) {
                    return false;
                }
                fresh(base, b);
                put(b, p, n, v);
                put(b, q, m, w);
                true
            }, &*t.check);
        }
    }

    /// Every combination of values of any few bits of the structure, in each of its shapes: the
    /// rows of an orthogonal array of the highest strength (3, 5, 7, ...) the budget allows for.
    fn cover(&self, t: &Target) {
        let Some(c) = Covered::new(t) else { return };
        let ns = c.shapes.len() as u64;
        let mut budget: u64 = if self.thorough() { 140_000_000 } else { 20_000_000 };
        if let Some(b) = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse::<u64>().ok()) {
            budget = b / 4;
        }
        let budget = (budget * t.boost / t.weight).max(1 << 21);
        // strength 5 in some of the shapes at least, above in all of them
        let fits = |strength: u32| {
            let k = covering::generators(c.pos.len() * 8, strength);
            k <= 27 && if strength == 5 { 1 } else { ns } << k <= budget
        };
        let mut strength = 3;
        while fits(strength + 2) && (strength as usize) < c.pos.len() * 8 {
            strength += 2;
        }
        for strength in if strength > 3 { vec![3, strength] } else { vec![3] } {
            let array = covering::Array::new(c.pos.len(), strength);
            // as many of the shapes as the budget allows for, evenly
            let n = if strength == 3 { ns } else { (budget / array.rows).clamp(1, ns) };
            if self.replay.is_none() {
                self.note(format!("{}: any {strength} bits with all values, {n} of {ns} shapes", t.name));
            }
            for i in 0..n {
                let shape = &c.shapes[(i * ns / n) as usize];
                self.sweep(t.name, "bits together", array.rows, &|r, b| c.image(shape, &array, r, b), &*t.check);
            }
        }
        self.cover_cuts(t);
    }

    /// Any three bits with all values, at every length
    pub fn cover_cuts(&self, t: &Target) {
        let Some(c) = Covered::new(t) else { return };
        if !t.truncate || !t.cut_positions.is_empty() {
            return;
        }
        let array = covering::Array::new(c.pos.len(), 3);
        let (ns, len) = (c.shapes.len() as u64, t.bases[0].len() as u64);
        let budget: u64 = if self.thorough() { 60_000_000 } else { 6_000_000 };
        let n = (budget / t.weight / array.rows / len).clamp(1, ns);
        for i in 0..n {
            let shape = &c.shapes[(i * ns / n) as usize];
            self.sweep(t.name, "bits together, cut", array.rows * len, &|r, b| {
                c.image(shape, &array, r / len, b);
                b.truncate((r % len) as usize);
                true
            }, &*t.check);
        }
    }

    /// Evidence, verdict line, exit code
    pub fn finish(self, bounds: &str, assumptions: &[&str]) -> ! {
        self.conclude(bounds, assumptions)
    }

    fn conclude(&self, bounds: &str, assumptions: &[&str]) -> ! {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        if let Some((t, _)) = &self.replay {
            if !self.replayed.load(Ordering::Relaxed) {
                eprintln!("replay: unknown target {t}");
                std::process::exit(2);
            }
            std::process::exit(if self.violated() { 1 } else { 0 });
        }
        let classes = self.classes.lock().unwrap();
        let nviol = self.violations.load(Ordering::Relaxed);
        let states = self.states.load(Ordering::Relaxed);
        let found = self.found.lock().unwrap();
        let cl: Vec<String> = classes.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect();
        let mut sm: Vec<String> = self.samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
        if let Some(f) = &*found {
            sm.push(format!("\"VIOLATING {} {}: {}\"", esc(&f.target), hex(&f.image), esc(&f.msg)));
        }
        let notes: Vec<String> = self.notes.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let asm: Vec<String> = assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let tier = if self.thorough() { "thorough" } else { "quick" };
        let json = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"rejections_agreed_with_impl\": {},\n  \"count_meaning\": \"states: images executed. traces_validated_against_impl: executions whose result was delivered and compared with the reference model. rejections_agreed_with_impl: executions in which model and implementation agree that there is nothing to deliver (short data, empty list). transitions: deviations applied to a base image plus list or table items stepped through.\",\n  \"exhaustive\": {},\n  \"bounds\": \"{}\",\n  \"distinct_outcome_classes\": {},\n  \"outcome_classes\": {{{}}},\n  \"notes\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {nviol}\n}}\n",
            self.property,
            self.transitions.load(Ordering::Relaxed),
            self.validated.load(Ordering::Relaxed),
            self.rejected.load(Ordering::Relaxed),
            nviol == 0,
            esc(bounds),
            classes.len(),
            cl.join(", "),
            notes.join(", "),
            sm.join(",\n   "),
            asm.join(", "),
            self.start.elapsed().as_secs_f64(),
        );
        std::fs::create_dir_all(format!("{root}/evidence")).expect("evidence dir");
        std::fs::write(format!("{root}/evidence/{}.json", self.property), json).expect("evidence file");
        println!(
            "property={} tier={tier} states={states} validated={} classes={} violations={nviol} wall={:.1}s",
            self.property,
            self.validated.load(Ordering::Relaxed),
            classes.len(),
            self.start.elapsed().as_secs_f64()
        );
        if let Some(f) = &*found {
            std::fs::create_dir_all(format!("{root}/out")).expect("out dir");
            let path = format!("{root}/out/{}.replay", self.property);
            std::fs::write(
                &path,
                format!("property: {}\ntarget: {}\nimage: {}\nmessage: {}\n", self.property, f.target, hex(&f.image), f.msg.replace('\n', " ")),
            )
            .expect("replay file");
            println!("{}: {} : {}", f.target, hex(&f.image), f.msg);
            println!("VIOLATION property={} replay={path}", self.property);
            std::process::exit(1);
        }
        std::process::exit(0);
    }
}
