//! Boring bit and byte extraction used by the reference models.

pub fn u8at(b: &[u8], o: usize) -> u8 {
    b[o]
}
pub fn u16at(b: &[u8], o: usize) -> u16 {
    b[o] as u16 | (b[o + 1] as u16) << 8
}
pub fn u32at(b: &[u8], o: usize) -> u32 {
    u16at(b, o) as u32 | (u16at(b, o + 2) as u32) << 16
}
pub fn u64at(b: &[u8], o: usize) -> u64 {
    u32at(b, o) as u64 | (u32at(b, o + 4) as u64) << 32
}
/// Is bit `n` of the register set
pub fn bit(v: impl Into<u64>, n: u32) -> bool {
    (v.into() >> n) & 1 == 1
}
/// Bits `hi..=lo` of the register
pub fn f64(v: impl Into<u64>, lo: u32, hi: u32) -> u64 {
    (v.into() >> lo) & (u64::MAX >> (63 - (hi - lo)))
}
pub fn f32(v: impl Into<u64>, lo: u32, hi: u32) -> u32 {
    f64(v, lo, hi) as u32
}
pub fn f16(v: impl Into<u64>, lo: u32, hi: u32) -> u16 {
    f64(v, lo, hi) as u16
}
pub fn f8(v: impl Into<u64>, lo: u32, hi: u32) -> u8 {
    f64(v, lo, hi) as u8
}

/// Compare a library result with the model's
pub fn same<T: PartialEq + core::fmt::Debug>(model: &T, real: &T) -> Result<(), String> {
    if model == real {
        Ok(())
    } else {
        Err(format!("model {model:?} real {real:?}"))
    }
}

/// Decoder with a single failure mode: too little data
pub fn cmp<T: PartialEq + core::fmt::Debug, E: core::fmt::Debug>(
    real: Result<T, E>,
    model: Option<T>,
) -> crate::Verdict {
    match (real, model) {
        (Ok(a), Some(b)) if a == b => Ok("decoded"),
        (Err(_), None) => Ok("error"),
        (a, b) => Err(format!("real {a:?} model {b:?}")),
    }
}

/// Decoder with distinguishable failures
pub fn cmp_err<T: PartialEq + core::fmt::Debug, E: PartialEq + core::fmt::Debug>(
    real: Result<T, E>,
    model: Result<T, E>,
) -> crate::Verdict {
    match (real, model) {
        (Ok(a), Ok(b)) if a == b => Ok("decoded"),
        (Err(a), Err(b)) if a == b => Ok("error"),
        (a, b) => Err(format!("real {a:?} model {b:?}")),
    }
}

/// Whether `sink` formats
pub static FORMAT: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(true);

thread_local! {
    /// Running digest of what `sink` formats
    pub static DIGEST: core::cell::Cell<u64> = const { core::cell::Cell::new(0) };
}

/// Format everything reachable, so that lazily computed parts are executed as well
pub fn sink<T: core::fmt::Debug>(v: &T) {
    use core::fmt::Write;
    if !FORMAT.load(core::sync::atomic::Ordering::Relaxed) {
        core::hint::black_box(v);
        return;
    }
    struct Sum(u64);
    impl Write for Sum {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            for c in s.as_bytes().chunks(8) {
                let word = c.iter().fold(0u64, |w, &x| w << 8 | x as u64);
                self.0 = (self.0 ^ word).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
            }
            Ok(())
        }
    }
    let mut n = Sum(DIGEST.get());
    let _ = write!(n, "{v:?}");
    DIGEST.set(n.0);
}
