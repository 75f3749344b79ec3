//! Strings sampled from a regex, and hostile variations of strings.
use crate::{Arb, CHARS, Rng, TEXTS};
use regex_syntax::hir::{Class, Hir, HirKind};

fn kind_text(kind: &str, r: &mut Rng) -> Option<String> {
    macro_rules! k {
        ($($n:literal => $t:ty),* $(,)?) => {
            match kind { $($n => Some(<$t as Arb>::arb(r).to_string()),)* _ => None }
        };
    }
    k!("u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64, "u128" => u128, "usize" => usize,
       "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128, "isize" => isize,
       "f32" => f32, "f64" => f64, "bool" => bool, "char" => char, "String" => String,
       "Word" => crate::Word, "Lines" => crate::Lines)
}

/// A random string matching `h` (look-arounds are ignored). A capture group named `x_KIND` is
/// usually given a text of that kind instead of a sample of its pattern, if `loose`.
fn sample(h: &Hir, r: &mut Rng, loose: bool, out: &mut Vec<u8>) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => {}
        HirKind::Literal(l) => out.extend_from_slice(&l.0),
        HirKind::Class(Class::Unicode(c)) => {
            let rs = c.ranges();
            if rs.is_empty() {
                return;
            }
            for _ in 0..3 {
                // prefer the hostile alphabet
                let ch = CHARS[r.below(CHARS.len())];
                if rs.iter().any(|x| x.start() <= ch && ch <= x.end()) {
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                    return;
                }
            }
            let x = rs[r.below(rs.len())];
            let (a, b) = (x.start() as u32, x.end() as u32);
            let pick = match r.below(3) {
                0 => a,
                1 => b,
                _ => a + (r.next() % (b - a + 1) as u64) as u32,
            };
            let ch = char::from_u32(pick).unwrap_or(x.start());
            let mut b = [0; 4];
            out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
        }
        HirKind::Class(Class::Bytes(c)) => {
            if let Some(x) = c.ranges().first() {
                out.push(x.start());
            }
        }
        HirKind::Repetition(rep) => {
            let max = rep.max.unwrap_or(rep.min + 4).min(rep.min + 6);
            let n = if rep.max.is_none() && r.chance(1, 25) {
                rep.min + 40
            } else {
                rep.min + r.below((max - rep.min + 1) as usize) as u32
            };
            for _ in 0..n {
                sample(&rep.sub, r, loose, out);
            }
        }
        HirKind::Capture(c) => {
            if loose {
                if let Some((_, kind)) = c.name.as_deref().and_then(|n| n.rsplit_once('_')) {
                    if r.chance(3, 4) {
                        if let Some(t) = kind_text(kind, r) {
                            out.extend_from_slice(t.as_bytes());
                            return;
                        }
                    } else if r.chance(1, 2) {
                        out.extend_from_slice(TEXTS[r.below(TEXTS.len())].as_bytes());
                        return;
                    }
                }
            }
            sample(&c.sub, r, loose, out)
        }
        HirKind::Concat(hs) => {
            for h in hs {
                sample(h, r, loose, out);
            }
        }
        HirKind::Alternation(hs) => {
            let i = r.below(hs.len());
            sample(&hs[i], r, loose, out)
        }
    }
}

pub struct Sampler(Vec<Hir>);
impl Sampler {
    pub fn new(res: &[&str]) -> Self {
        Sampler(
            res.iter()
                .map(|re| {
                    regex_syntax::Parser::new()
                        .parse(re)
                        .unwrap_or_else(|e| panic!("harness: model regex {re:?}: {e}"))
                })
                .collect(),
        )
    }
    pub fn sample(&self, r: &mut Rng, loose: bool) -> String {
        if self.0.is_empty() {
            return String::arb(r);
        }
        let h = &self.0[r.below(self.0.len())];
        let mut o = Vec::new();
        sample(h, r, loose, &mut o);
        String::from_utf8(o).unwrap_or_default()
    }
}

fn boundaries(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect()
}

/// A small hostile edit of `s`.
pub fn mutate(s: &str, r: &mut Rng) -> String {
    let bs = boundaries(s);
    let at = bs[r.below(bs.len())];
    let at2 = bs[r.below(bs.len())];
    let (lo, hi) = (at.min(at2), at.max(at2));
    let ins = |t: &str| format!("{}{}{}", &s[..at], t, &s[at..]);
    match r.below(16) {
        0 => ins("\n"),
        1 => format!("{s}\n"),
        2 => format!("\n{s}"),
        3 => format!(" {s}"),
        4 => format!("{s} "),
        5 => s[..at].to_string(),
        6 => s[at..].to_string(),
        7 => format!("{}{}", &s[..lo], &s[hi..]),
        8 => format!("{s}{s}"),
        9 => {
            let c = char::arb(r);
            ins(&c.to_string())
        }
        10 => ins(TEXTS[r.below(TEXTS.len())]),
        11 => s
            .chars()
            .map(|c| {
                if c.is_ascii_lowercase() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            })
            .collect(),
        12 => {
            // duplicate a slice of the string itself
            let t = s[lo..hi].to_string();
            ins(&t)
        }
        13 => {
            let mut cs: Vec<char> = s.chars().collect();
            if cs.len() > 1 {
                let i = r.below(cs.len() - 1);
                cs.swap(i, i + 1);
            }
            cs.into_iter().collect()
        }
        14 => {
            let mut cs: Vec<char> = s.chars().collect();
            if !cs.is_empty() {
                let i = r.below(cs.len());
                cs[i] = char::arb(r);
            }
            cs.into_iter().collect()
        }
        _ => String::arb(r),
    }
}

/// `n` input strings around the language of `res`, starting from the `shown` texts.
pub fn inputs(res: &[&str], shown: &[String], extra: &[&str], r: &mut Rng, n: usize) -> Vec<String> {
    let sm = Sampler::new(res);
    let mut v: Vec<String> = extra.iter().map(|s| s.to_string()).collect();
    v.push(String::new());
    for s in shown {
        v.push(s.clone());
    }
    while v.len() < n {
        let s = match r.below(10) {
            0..=3 => sm.sample(r, true),
            4 => sm.sample(r, false),
            5 | 6 => {
                let s = sm.sample(r, true);
                mutate(&s, r)
            }
            7 if !shown.is_empty() => {
                let s = &shown[r.below(shown.len())];
                mutate(s, r)
            }
            8 if !extra.is_empty() => {
                let s = extra[r.below(extra.len())];
                mutate(s, r)
            }
            _ => {
                let s = sm.sample(r, true);
                let s = mutate(&s, r);
                mutate(&s, r)
            }
        };
        v.push(s);
    }
    v
}
