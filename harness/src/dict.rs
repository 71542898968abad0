//! A dictionary for the generators: the literals in the source of the crate
//! under test. It decides what is tried, never what is right: code that treats
//! a particular number or text in a special way names it somewhere.
use std::{path::Path, sync::OnceLock};

use proptest::{prelude::*, sample::select, strategy::BoxedStrategy};

use crate::fl::F;

#[derive(Default)]
struct Dict {
    ints: Vec<u64>,
    floats: Vec<f32>,
    texts: Vec<String>,
}

fn read(dir: &Path, out: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut files: Vec<_> = d.flatten().map(|e| e.path()).collect();
    files.sort();
    for p in files {
        if p.is_dir() {
            read(&p, out)
        } else if p.extension().is_some_and(|e| e == "rs") && p.file_stem().is_some_and(|s| s != "tests") {
            out.extend(std::fs::read_to_string(&p))
        }
    }
}

/// Numbers and texts of a source file, comments left out.
fn scan(src: &str, d: &mut Dict) {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1
                }
            }
            '"' => {
                let mut t = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1
                    }
                    t.push(at(i));
                    i += 1;
                }
                i += 1;
                if t.len() <= 24 {
                    d.texts.push(t)
                }
            }
            '\'' => {
                // A character, not a lifetime.
                if at(i + 2) == '\'' && at(i + 1) != '\\' {
                    d.texts.push(at(i + 1).to_string());
                    i += 3
                } else {
                    i += 1
                }
            }
            x if x.is_ascii_digit() => {
                let start = i;
                while at(i).is_ascii_alphanumeric() || at(i) == '_' || (at(i) == '.' && at(i + 1).is_ascii_digit()) || (matches!(at(i), '+' | '-') && matches!(at(i - 1), 'e' | 'E') && !c[start..i].contains(&'x')) {
                    i += 1
                }
                let mut s: String = c[start..i].iter().filter(|c| **c != '_').collect();
                for suffix in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"] {
                    if !s.starts_with("0x") || !suffix.starts_with('f') {
                        if let Some(p) = s.strip_suffix(suffix) {
                            s = p.to_string();
                            break;
                        }
                    }
                }
                let radix = [("0x", 16), ("0b", 2), ("0o", 8)].into_iter().find_map(|(p, r)| s.strip_prefix(p).map(|d| u64::from_str_radix(d, r)));
                match radix {
                    Some(Ok(v)) => d.ints.push(v),
                    Some(Err(_)) => (),
                    None => {
                        if let Ok(v) = s.parse::<u64>() {
                            d.ints.push(v)
                        }
                        if let Ok(v) = s.parse::<f32>() {
                            d.floats.push(v)
                        }
                    }
                }
            }
            x if x.is_alphabetic() || x == '_' => {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1
                }
            }
            _ => i += 1,
        }
    }
}

fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        read(Path::new("/repo/src"), &mut files);
        let mut d = Dict::default();
        for f in &files {
            scan(f, &mut d)
        }
        // Shifts and products are written with small numbers.
        let mut more: Vec<u64> = d.ints.iter().filter(|v| (4..40).contains(*v)).map(|v| 1u64 << v).collect();
        d.ints.append(&mut more);
        d.ints = d
            .ints
            .iter()
            .filter(|v| **v > 4)
            .flat_map(|v| [v - 1, *v, v.saturating_add(1), v.saturating_mul(2)])
            .collect();
        d.ints.sort();
        d.ints.dedup();
        d.floats = d
            .floats
            .iter()
            .filter(|v| v.is_finite() && **v != 0.0)
            .flat_map(|v| [*v, -v, v.next_up(), v.next_down(), v * 0.5, v * 2.0, v * 1.01, v * 0.99])
            .collect();
        d.floats.sort_by(f32::total_cmp);
        d.floats.dedup();
        d.texts.sort();
        d.texts.dedup();
        d
    })
}

/// Integers in this range (`lo` if there are none).
pub fn ints(lo: u64, hi: u64) -> BoxedStrategy<u64> {
    let mut v: Vec<u64> = dict().ints.iter().copied().filter(|v| (lo..=hi).contains(v)).collect();
    if v.is_empty() {
        v.push(lo)
    }
    select(v).boxed()
}

pub fn counts(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    ints(lo as u64, hi as u64).prop_map(|v| v as usize).boxed()
}

pub fn has_int(lo: u64, hi: u64) -> bool {
    dict().ints.iter().any(|v| (lo..=hi).contains(v))
}

pub fn sizes(lo: u32, hi: u32) -> BoxedStrategy<u32> {
    ints(lo as u64, hi as u64).prop_map(|v| v as u32).boxed()
}

/// Finite numbers in this range.
pub fn floats(lo: f32, hi: f32) -> BoxedStrategy<F> {
    let mut v: Vec<F> = dict().floats.iter().copied().filter(|v| (lo..=hi).contains(v)).map(F).collect();
    if v.is_empty() {
        v.push(F(lo))
    }
    select(v).boxed()
}

/// Texts up to 24 bytes long.
pub fn texts() -> BoxedStrategy<String> {
    let mut v = dict().texts.clone();
    v.push(String::new());
    select(v).boxed()
}

#[cfg(test)]
mod tests {
    #[test]
    fn show() {
        let d = super::dict();
        println!("{:?}\n{:?}\n{:?}", d.ints, d.floats, d.texts);
    }
}
