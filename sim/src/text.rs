//! Texts made of characters that occur only once, so that every one of them can be followed.
use simcore::rng::Rng;

#[derive(Default)]
pub struct Source {
    used: [u32; 5],
}

const POOLS: [(u32, u32); 5] = [
    (0x61, 26),       // a-z
    (0x0410, 64),     // two bytes in UTF-8
    (0x4E00, 20_000), // three bytes
    (0x20000, 40_000),// four bytes, two UTF-16 units
    (0x41, 26),       // A-Z
];

/// Characters that some programs take for the end of a line.
const ODD: &[char] = &['\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'];

impl Source {
    /// A source of characters that do not occur in these texts.
    pub fn after(texts: &[String]) -> Self {
        let mut s = Self::default();
        for c in texts.iter().flat_map(|t| t.chars()) {
            for (i, (b, n)) in POOLS.iter().enumerate() {
                let c = c as u32;
                if c >= *b && c < b + n {
                    s.used[i] = s.used[i].max(c - b + 1);
                }
            }
        }
        s
    }

    pub fn next(&mut self, g: &mut Rng) -> char {
        loop {
            let p = *g.pick(&[0usize, 1, 2, 2, 3, 3, 4]);
            let (base, n) = POOLS[p];
            if self.used[p] < n {
                let c = base + self.used[p];
                self.used[p] += 1;
                return char::from_u32(c).unwrap();
            }
        }
    }

    pub fn text(&mut self, g: &mut Rng, len: u64, newlines: bool) -> Vec<char> {
        (0..len)
            .map(|_| match g.below(1000) {
                0..=199 if newlines => '\n',
                200..=209 => *g.pick(ODD),
                _ => self.next(g),
            })
            .collect()
    }
}

/// Is this one of the characters that are tracked?
pub fn tracked(c: char) -> bool {
    POOLS.iter().any(|(b, n)| (c as u32) >= *b && (c as u32) < b + n)
}

pub fn pos(text: &[char], off: usize) -> (usize, usize) {
    let mut line = 0;
    let mut start = 0;
    for (i, c) in text[..off].iter().enumerate() {
        if *c == '\n' {
            line += 1;
            start = i + 1;
        }
    }
    (line, off - start)
}

/// None if the position does not exist in the text.
pub fn offset(text: &[char], line: usize, character: usize) -> Option<usize> {
    let mut start = 0;
    for _ in 0..line {
        let nl = text[start..].iter().position(|c| *c == '\n')?;
        start += nl + 1;
    }
    let len = text[start..].iter().position(|c| *c == '\n').unwrap_or(text.len() - start);
    if character > len {
        return None;
    }
    Some(start + character)
}
