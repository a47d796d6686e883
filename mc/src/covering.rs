//! Orthogonal arrays: sets of images in which any `t` bits take on all their `2^t` combinations.
//!
//! The rows are the words generated by the parity check matrix of an extended BCH code: the column
//! of bit `i` is (1, a^i, a^3i, ...) with `a` primitive in GF(2^m), any `t` columns of which are
//! linearly independent. They reach every condition on up to `t` bits, wherever in the image.

/// Primitive polynomials of degree 3..=15 (bit k: coefficient of x^k)
const PRIMITIVE: [u32; 13] = [0xb, 0x13, 0x25, 0x43, 0x89, 0x11d, 0x211, 0x409, 0x805, 0x1053, 0x201b, 0x4443, 0x8003];

fn degree(bits: usize) -> u32 {
    (3..=15).find(|m| (1usize << m) > bits).expect("at most 4095 bytes")
}
/// Number of generators of an array of this (odd) strength
pub fn generators(bits: usize, strength: u32) -> u32 {
    1 + degree(bits) * (strength / 2)
}

pub struct Array {
    /// Images of the low and of the high generators' combinations
    low: Vec<Vec<u8>>,
    high: Vec<Vec<u8>>,
    pub rows: u64,
}
impl Array {
    pub fn new(bytes: usize, strength: u32) -> Self {
        let bits = bytes * 8;
        let m = degree(bits);
        let poly = PRIMITIVE[m as usize - 3];
        // powers of a
        let order = (1usize << m) - 1;
        let mut power = Vec::with_capacity(order);
        let mut x = 1u32;
        for _ in 0..order {
            power.push(x);
            x <<= 1;
            if x >> m != 0 {
                x ^= poly;
            }
        }
        assert_eq!(x, 1, "primitive");
        let k = generators(bits, strength) as usize;
        // one image per generator
        let mut images = vec![vec![0u8; bytes]; k];
        for i in 0..bits {
            let mut column = 1u128;
            for (n, odd) in (1..strength as usize).step_by(2).enumerate() {
                column |= (power[i * odd % order] as u128) << (1 + n as u32 * m);
            }
            for (g, img) in images.iter_mut().enumerate() {
                img[i / 8] |= ((column >> g & 1) as u8) << (i % 8);
            }
        }
        let combine = |g: &[Vec<u8>]| {
            let mut out = vec![vec![0u8; bytes]];
            for img in g {
                for j in 0..out.len() {
                    out.push(out[j].iter().zip(img).map(|(a, b)| a ^ b).collect());
                }
            }
            out
        };
        let half = k / 2;
        Array { low: combine(&images[..half]), high: combine(&images[half..]), rows: 1 << k }
    }
    pub fn byte(&self, row: u64, at: usize) -> u8 {
        let n = self.low.len() as u64;
        self.low[(row % n) as usize][at] ^ self.high[(row / n) as usize][at]
    }
    /// Image of a row
    pub fn row(&self, row: u64, b: &mut Vec<u8>) {
        let n = self.low.len() as u64;
        let (x, y) = (&self.low[(row % n) as usize], &self.high[(row / n) as usize]);
        b.clear();
        b.extend(x.iter().zip(y).map(|(a, b)| a ^ b));
    }
}

#[test]
fn strength() {
    // 3 bytes: all sets of 3 and of 5 bits take on all values equally often
    for s in [3u32, 5] {
        let a = Array::new(3, s);
        let mut img = vec![];
        let rows: Vec<u32> = (0..a.rows).map(|r| {
            a.row(r, &mut img);
            img[0] as u32 | (img[1] as u32) << 8 | (img[2] as u32) << 16
        }).collect();
        for set in (0u32..1 << 24).filter(|x| x.count_ones() == s) {
            let mut seen = std::collections::HashMap::new();
            rows.iter().for_each(|r| *seen.entry(r & set).or_insert(0u32) += 1);
            assert_eq!(seen.len(), 1 << s, "{set:#x}");
            assert!(seen.values().all(|n| *n as u64 == a.rows >> s));
        }
    }
}
