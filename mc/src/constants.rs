//! The numbers the library under test is written with. A decision on a particular value of a wide
//! register (an id, a magic number, a limit) has to name that value, and a register of 32 bits is
//! beyond enumeration, so the values to enumerate are taken from the source: every integer literal
//! outside comments, strings and unit tests, with its neighbours. They only add states to explore;
//! what is right for a state is decided by the model as for any other.
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Constants {
    /// Up to 8 bits
    pub bytes: Vec<u8>,
    /// 9 to 16 bits, as written
    pub words: Vec<u16>,
    /// All wider than 8 bits, as written and one less and more
    pub wide: Vec<u64>,
}

pub fn get() -> &'static Constants {
    static ALL: OnceLock<Constants> = OnceLock::new();
    ALL.get_or_init(|| {
        let root = std::env::var("PCICS_SRC").unwrap_or_else(|_| "/repo/src".into());
        let mut found = BTreeSet::new();
        visit(std::path::Path::new(&root), &mut found);
        let mut c = Constants { bytes: found.iter().filter(|&&v| v < 0x100).map(|&v| v as u8).collect(), ..Default::default() };
        c.words = found.iter().filter(|&&v| (0x100..0x1_0000).contains(&v)).map(|&v| v as u16).collect();
        let wide: BTreeSet<u64> =
            found.iter().filter(|&&v| v > 0xff).flat_map(|&v| [v - 1, v, v.wrapping_add(1)]).filter(|&v| v > 0xff).collect();
        c.wide = wide.into_iter().collect();
        // a table of numbers put into the library is not a reason to run for hours
        c.words.truncate(64);
        c.wide.truncate(256);
        c
    })
}

fn visit(dir: &std::path::Path, found: &mut BTreeSet<u64>) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for entry in entries.flatten() {
        let path = entry.path();
        if path.is_dir() {
            visit(&path, found);
        } else if path.extension().is_some_and(|e| e == "rs") {
            if let Ok(text) = std::fs::read(&path) {
                literals(&text, found);
            }
        }
    }
}

fn literals(text: &[u8], found: &mut BTreeSet<u64>) {
    let end = text.windows(12).position(|w| w == b"#[cfg(test)]").unwrap_or(text.len());
    let text = &text[..end];
    let at = |i: usize| text.get(i).copied().unwrap_or(b' ');
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut i = 0;
    while i < text.len() {
        let c = at(i);
        if c == b'/' && at(i + 1) == b'/' {
            while i < text.len() && at(i) != b'\n' {
                i += 1;
            }
        } else if c == b'/' && at(i + 1) == b'*' {
            i += 2;
            while i < text.len() && (at(i), at(i + 1)) != (b'*', b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            i += 1;
            while i < text.len() && at(i) != b'"' {
                i += 1 + (at(i) == b'\\') as usize;
            }
            i += 1;
        } else if word(c) {
            let start = i;
            while word(at(i)) && i < text.len() {
                i += 1;
            }
            if c.is_ascii_digit() {
                number(&text[start..i], found);
            }
        } else {
            i += 1;
        }
    }
}

fn number(word: &[u8], found: &mut BTreeSet<u64>) {
    let text: String = word.iter().filter(|&&c| c != b'_').map(|&c| c as char).collect();
    let (radix, digits) = match text.get(..2) {
        Some("0x") => (16, &text[2..]),
        Some("0b") => (2, &text[2..]),
        Some("0o") => (8, &text[2..]),
        _ => (10, &text[..]),
    };
    // a suffix names the type
    let digits = match digits.find(['u', 'i']) {
        Some(n) => &digits[..n],
        None => digits,
    };
    if let Ok(v) = u64::from_str_radix(digits, radix) {
        found.insert(v);
    }
}
