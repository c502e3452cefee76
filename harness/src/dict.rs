//! The literals of the tree under test that the original tree does not have: a change compares with something it
//! names. One per line: `s TEXT` or `n NUMBER`, in the file that VERIF_LITERALS names. None on the original tree.
use crate::rng::Rng;
use std::sync::OnceLock;

pub struct Dict {
    pub words: Vec<String>,
    pub nums: Vec<u64>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { words: vec![], nums: vec![] };
        let t = std::env::var("VERIF_LITERALS").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in t.lines() {
            match l.split_once(' ') {
                Some(("s", w)) if !w.is_empty() && w.len() < 100 => d.words.push(w.to_string()),
                Some(("n", n)) => d.nums.extend(n.parse::<u64>()),
                _ => {}
            }
        }
        d.words.truncate(60);
        d.nums.truncate(24);
        d
    })
}

/// A word of the dictionary that can be a name, alone or with something around it.
pub fn word(r: &mut Rng) -> Option<String> {
    let d = dict();
    if d.words.is_empty() {
        return None;
    }
    let w = r.pick(&d.words).clone();
    Some(match r.below(7) {
        0 => format!("{w}x"),
        1 => format!("x{w}"),
        2 => format!("x{w}y"),
        3 => w.to_uppercase(),
        4 => format!("{w}0"),
        _ => w,
    })
}

/// A number of the dictionary or next to one.
pub fn number(r: &mut Rng) -> Option<u64> {
    let d = dict();
    if d.nums.is_empty() {
        return None;
    }
    Some(r.pick(&d.nums).wrapping_add(r.below(3) as u64).wrapping_sub(1))
}
