//! One oracle per property.
use crate::dict::*;
use crate::drive::*;
use crate::gen::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::view::*;

#[derive(Debug, Clone)]
pub struct Viol {
    pub what: String,
    pub bytes: Vec<u8>,
    pub cfg: Cfg,
    pub expected: String,
    pub actual: String,
}
/// Result of one case.
pub struct Out {
    pub viol: Option<Viol>,
    pub nontrivial: bool,
    pub hash: u64,
    pub sample: String,
}
pub struct Env {
    pub depth: usize,
}

pub fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}
fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 1500 {
        s.chars().take(1500).collect::<String>() + "…"
    } else {
        s
    }
}

pub fn profile(prop: &str) -> Profile {
    //  format sub rem data info minfo param dparam str tag drop flags unk late
    let mut p = BASE;
    match prop {
        "C04" => {
            p.w = [3, 6, 1, 40, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0];
            p.nested = 35;
            p.malformed = 20;
        }
        "C07" => p.w = [3, 16, 5, 40, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1],
        "C08" => p.w = [3, 16, 6, 40, 0, 0, 0, 0, 1, 0, 0, 0, 0, 3],
        "C19" => {
            p.w = [3, 16, 2, 40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1];
            p.zero_multi = 70;
        }
        "C09" => {
            p.w = [3, 6, 1, 40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
            p.padding = 40;
            p.odd_ts = 20;
            p.nested = 30;
        }
        "C10" => {
            p.appended = 80;
            p.malformed = 5;
        }
        "C11" => {
            p.w = [30, 3, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
            p.malformed = 40;
            p.spaces = 40;
            p.n_formats = 8;
        }
        "C12" => p.w = [6, 10, 2, 10, 2, 2, 2, 2, 3, 3, 3, 3, 4, 8],
        "C15" => p.w = [3, 6, 4, 4, 1, 1, 1, 1, 1, 1, 1, 4, 40, 4],
        "C17" => {
            p.w = [3, 4, 0, 1, 20, 20, 20, 20, 0, 0, 0, 0, 0, 0];
            p.malformed = 25;
            p.spaces = 25;
        }
        "C18" => {
            p.w = [3, 4, 0, 1, 0, 0, 0, 0, 20, 20, 15, 0, 0, 0];
            p.malformed = 25;
        }
        "C01" | "C03" => p.malformed = 30,
        "C05" => {
            p.canonical = true;
            p.malformed = 0;
            p.odd_ts = 0;
            p.w = [3, 8, 3, 30, 6, 5, 5, 5, 6, 6, 4, 2, 4, 2];
        }
        _ => {}
    }
    p
}

pub fn random_cfg(r: &mut Rng, prop: &str, names: &[String]) -> Cfg {
    let allow_pct = match prop {
        "C07" => 80,
        "C05" => 0,
        _ => 25,
    };
    let allow = if r.chance(allow_pct, 100) {
        let n = if r.chance(1, 12) { 40 } else { r.below(4) };
        Some(
            (0..n)
                .map(|_| {
                    let x = r.pick(names).clone();
                    match r.below(8) {
                        0 => String::new(),
                        1 | 2 => relative(r, &x),
                        3 => r.pick(&FORMAT_NAMES).to_string(),
                        _ => x,
                    }
                })
                .collect(),
        )
    } else {
        None
    };
    Cfg { header: r.chance(1, 2), ts: r.chance(1, 2), pad: r.chance(1, 2), allow }
}

fn by_type(ty: u8, phase: char) -> &'static [&'static str] {
    match (ty, phase) {
        (0, _) => &["C12"],
        (b'I' | b'M' | b'P' | b'Q', _) => &["C17"],
        (b'A', _) => &["C08"],
        (b'B', 'D') => &["C10"],
        (b'F', 'D') => &["C11"],
        (b'F', 'A') => &["C12", "C15"],
        (b'B', 'A') => &["C15", "C12"],
        (b'L' | b'C' | b'O', 'A') => &["C18"],
        (b'D', 'A') => &["C04"],
        (b'R', 'A') => &["C08", "C15"],
        (_, 'D') if b"DLCOR".contains(&ty) => &["C15", "C12"],
        _ => &["C15"],
    }
}

/// The properties that the first difference between `e` and `a` breaks.
fn blame(e: &Exp, a: &Result<Item, String>) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    match (&e.res, a) {
        (Err("truncated"), Ok(_)) => v.push("C02"),
        (Err("bad header"), Ok(_)) => v.extend(["C12", "C02"]),
        (Ok(Item::Ignored { .. }), _) => v.push("C07"),
        (Ok(Item::Data { .. }), Ok(Item::Ignored { .. })) => v.push("C07"),
        (Err("data: unknown id"), _) => v.push("C08"),
        (Err("data: no timestamp"), _) => v.extend(["C04", "C09"]),
        (Ok(Item::Data { ts, msg_id, data }), Ok(Item::Data { ts: ts2, msg_id: id2, data: d2 })) => {
            if msg_id != id2 || data.name != d2.name || data.def != d2.def {
                v.push("C08");
                if data.def != d2.def {
                    v.push("C04");
                }
            } else if ts != ts2 {
                v.extend(["C09", "C04"]);
            } else if data.multi != d2.multi {
                v.push("C19");
            } else {
                let n1: Vec<_> = data.fields.iter().map(|f| &f.name).collect();
                let n2: Vec<_> = d2.fields.iter().map(|f| &f.name).collect();
                if n1 != n2 {
                    v.push("C09");
                }
                v.push("C04");
            }
        }
        (Ok(Item::Data { .. }), Err(_)) => v.extend(["C04", "C08"]),
        (Ok(Item::Data { .. }), Ok(_)) => v.extend(["C04", "C15"]),
        (Err(why), _) if why.starts_with("decode:") && e.ty == b'D' => v.push("C04"),
        (Err("sub: unknown format"), _) => v.push("C08"),
        _ => {
            v.extend(by_type(e.ty, e.phase));
            if let (Ok(x), Ok(y)) = (&e.res, a) {
                if x.kind() != y.kind() && (e.phase == 'D' || e.ty == b'F' || e.ty == b'B') {
                    v.push("C12");
                }
            }
            if let (Ok(Item::Sub { .. }), _) = (&e.res, a) {
                v.push("C12");
            }
        }
    }
    if e.late && !v.contains(&"C12") {
        v.push("C12");
    }
    v
}

/// First difference between what must be and what is: description, expected, actual, properties.
pub fn diff(run: &Run, act: &Act) -> Option<(String, String, String, Vec<&'static str>)> {
    for (i, e) in run.items.iter().enumerate() {
        match act.items.get(i) {
            None => {
                if let Some(c) = &act.crash {
                    let mut v = vec!["C03"];
                    v.extend(by_type(e.ty, e.phase));
                    return Some((format!("item {i} (type byte {}): {c}", e.ty), short(&e.res), c.clone(), v));
                }
                let mut v = vec!["C01", "C12", "C10"];
                if e.res == Err("truncated") {
                    v = vec!["C02"];
                }
                return Some((format!("item {i}: the iteration ends too early"), short(&e.res), "end".into(), v));
            }
            Some(a) => {
                let same = match (&e.res, a) {
                    (Ok(x), Ok(y)) => x == y,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    return Some((format!("item {i} (type byte {})", e.ty), short(&e.res), short(a), blame(e, a)));
                }
            }
        }
    }
    let extra = &act.items[run.items.len()..];
    if let Some(c) = &act.crash {
        return Some((c.clone(), "no crash".into(), c.clone(), vec!["C03"]));
    }
    let props: Vec<&'static str> = match run.end {
        End::Clean => vec!["C12", "C01", "C02"],
        End::Limit => vec!["C10"],
        End::Truncated | End::InSize => vec!["C02", "C12"],
        End::BadHeader => vec!["C12"],
    };
    let allowed = match run.end {
        End::BadHeader => extra.iter().all(|x| x.is_err()),
        End::InSize => extra.len() <= 1 && extra.iter().all(|x| x.is_err()),
        _ => extra.is_empty(),
    };
    if !allowed {
        return Some((format!("{:?} end: more items follow", run.end), "end".into(), short(&extra[0]), props));
    }
    if !act.ended {
        return Some(("the iteration does not end".into(), "end".into(), "still going".into(), vec!["C03", "C12"]));
    }
    if act.after_end {
        return Some(("an item after the end".into(), "None".into(), "Some".into(), vec!["C12"]));
    }
    None
}

pub fn check_bytes(prop: &str, b: &[u8], cfg: &Cfg, mode: Mode, env: &Env) -> Option<Viol> {
    let run = run(b, cfg, env.depth);
    let act = actual(b, cfg, mode);
    let (what, expected, actual, props) = diff(&run, &act)?;
    if !props.contains(&prop) {
        return None;
    }
    Some(Viol { what: format!("{what} [{}]", props.join(",")), bytes: b.to_vec(), cfg: cfg.clone(), expected, actual })
}

/// The log, its messages and the names it uses.
pub fn gen_log(r: &mut Rng, p: Profile) -> (Vec<u8>, Vec<(u8, Vec<u8>)>, Vec<String>) {
    let mut g = Gen::new(r, p);
    g.log();
    (g.bytes(), g.msgs, g.names)
}

/// Cuts messages out of a failing log while it still fails.
pub fn shrink(v: Viol, f: &dyn Fn(&[u8], &Cfg) -> Option<Viol>) -> Viol {
    let mut best = v;
    if best.bytes.len() < 16 {
        return best;
    }
    let t0 = std::time::Instant::now();
    'again: loop {
        let b = best.bytes.clone();
        let mut bounds = vec![16];
        let mut p = 16;
        while p + 3 <= b.len() {
            let n = u16::from_le_bytes([b[p], b[p + 1]]) as usize;
            p += 3 + n;
            if p > b.len() {
                break;
            }
            bounds.push(p);
        }
        for w in bounds.windows(2).rev() {
            if t0.elapsed().as_secs() > 5 {
                return best;
            }
            let c = [&b[..w[0]], &b[w[1]..]].concat();
            if let Some(v2) = f(&c, &best.cfg) {
                best = v2;
                continue 'again;
            }
        }
        for cfg in [
            Cfg { allow: None, ..best.cfg.clone() },
            Cfg { header: false, ..best.cfg.clone() },
        ] {
            if cfg != best.cfg {
                if let Some(v2) = f(&b, &cfg) {
                    best = v2;
                    continue 'again;
                }
            }
        }
        return best;
    }
}

// ---------------------------------------------------------------- systematic cases

fn log_of(msgs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut b = vec![0x55, 0x4c, 0x6f, 0x67, 1, 0x12, 0x35, 1, 1, 2, 3, 4, 5, 6, 7, 8];
    for (t, c) in msgs {
        b.extend((c.len() as u16).to_le_bytes());
        b.push(*t);
        b.extend(c);
    }
    b
}
fn m(t: u8, c: &[u8]) -> (u8, Vec<u8>) {
    (t, c.to_vec())
}
fn sub(multi: u8, id: u16, name: &str) -> (u8, Vec<u8>) {
    let mut c = vec![multi];
    c.extend(id.to_le_bytes());
    c.extend(name.as_bytes());
    (b'A', c)
}
const MINI: &str = "mini:uint64_t timestamp;uint8_t v;";
fn fmt(s: &str) -> (u8, Vec<u8>) {
    (b'F', s.as_bytes().to_vec())
}
fn mini_data(id: u16, v: u8) -> (u8, Vec<u8>) {
    let mut c = id.to_le_bytes().to_vec();
    c.extend([9, 8, 7, 6, 5, 4, 3, 2, v]);
    (b'D', c)
}
fn beacon(n: u32) -> (u8, Vec<u8>) {
    (b'z', [&b"beacon"[..], &n.to_le_bytes()].concat())
}
fn all_cfg() -> Vec<Cfg> {
    let mut v = vec![];
    for k in 0..8u8 {
        v.push(Cfg { header: k & 4 != 0, ts: k & 1 != 0, pad: k & 2 != 0, allow: None });
    }
    v
}

/// Fixed cases, enumerated: the first cases of every run.
pub fn systematic(prop: &str) -> Vec<(Vec<u8>, Cfg)> {
    let d = Cfg { header: true, ts: true, pad: true, allow: None };
    let mut v: Vec<(Vec<u8>, Cfg)> = literal(&d);
    v.extend(many(&d));
    let defs = |extra: Vec<(u8, Vec<u8>)>, data: Vec<(u8, Vec<u8>)>| {
        let mut l = vec![fmt(MINI)];
        l.extend(extra);
        l.push(sub(0, 1, "mini"));
        l.extend(data);
        log_of(&l)
    };
    // every type byte with short, medium and plausible contents in both phases
    let contents: Vec<Vec<u8>> = vec![vec![], vec![1], vec![1, 0], vec![1, 0, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14], b"0123456789abcdef\x00\xff".to_vec(), vec![0; 40]];
    for t in 0..=255u8 {
        for c in &contents {
            if !matches!(prop, "C15" | "C12" | "C03" | "C01") && !(b"FDIMPQARSOLCB".contains(&t)) {
                continue;
            }
            v.push((log_of(&[m(t, c), fmt(MINI), sub(0, 1, "mini"), mini_data(1, 3)]), d.clone()));
            v.push((defs(vec![], vec![m(t, c), mini_data(1, 3), beacon(1)]), d.clone()));
        }
    }
    // every scalar and array type, in messages that are exact, one byte short and one byte long
    for t in ALL_TY {
        for arr in [None, Some(0), Some(1), Some(3)] {
            let n = arr.unwrap_or(1) * t.size();
            let ty = type_text(&TypeV { base: Base::P(t), arr });
            for (k, cut) in [(0i32, 0), (-1, 0), (1, 0), (0, 1)] {
                let mut c = vec![1, 0];
                c.extend((0..8).map(|x| 0xA0 + x as u8));
                c.extend((0..(n as i32 + k).max(0)).map(|x| 0xC1u8.wrapping_add((x * 37) as u8)));
                let f = if cut == 1 { format!("mini:uint64_t timestamp;{ty} v;uint8_t w;") } else { format!("mini:uint64_t timestamp;{ty} v;") };
                for cfg in all_cfg().into_iter().skip(4) {
                    v.push((log_of(&[fmt(&f), sub(0, 1, "mini"), (b'D', c.clone()), mini_data(1, 7)]), cfg));
                }
                // the same value in info messages
                for mt in [b'I', b'M', b'P', b'Q'] {
                    let key = format!("{ty} key");
                    let mut kc = vec![];
                    if mt == b'M' || mt == b'Q' {
                        kc.push(2);
                    }
                    kc.push(key.len() as u8);
                    kc.extend(key.as_bytes());
                    kc.extend(&c[10..]);
                    v.push((defs(vec![(mt, kc.clone())], vec![(mt, kc)]), d.clone()));
                }
            }
        }
    }
    // levels
    for l in 0..=255u8 {
        let mut c = vec![l];
        c.extend([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
        c.extend(b"text");
        v.push((defs(vec![], vec![(b'L', c.clone()), (b'C', c), beacon(2)]), d.clone()));
    }
    for n in 0..12 {
        v.push((defs(vec![], vec![(b'L', b"4abcdefghijklmnop"[..n].to_vec()), (b'C', b"4abcdefghijklmnop"[..n].to_vec()), (b'O', vec![0xEE; n.min(4)]), beacon(2)]), d.clone()));
    }
    // flag bits
    for i in 0..64usize {
        let mut c = vec![0xA1, 2, 3, 4, 5, 6, 7, 8];
        let mut inc = [0u8; 8];
        inc[i / 8] = 1 << (i % 8);
        c.extend(inc);
        c.extend([0u8; 24]);
        v.push((log_of(&[(b'B', c.clone()), fmt(MINI), sub(0, 1, "mini"), mini_data(1, 3)]), d.clone()));
        c[i / 8] ^= 1 << (i % 8);
        v.push((log_of(&[(b'B', c), fmt(MINI), sub(0, 1, "mini"), mini_data(1, 3)]), d.clone()));
    }
    let tail = [fmt(MINI), sub(0, 1, "mini"), mini_data(1, 3), beacon(1), mini_data(1, 4)];
    let total = log_of(&tail).len() as u64 + 43;
    for flag in [0u8, 1] {
        for pos in 0..3 {
            for off in 0..=total + 2 {
                let mut c = vec![0; 8];
                c.extend([flag, 0, 0, 0, 0, 0, 0, 0]);
                for k in 0..3 {
                    let o: u64 = if k == pos { off } else if k > pos { 20 } else { 0 };
                    c.extend(o.to_le_bytes());
                }
                let mut l = vec![(b'B', c)];
                l.extend(tail.iter().cloned());
                v.push((log_of(&l), d.clone()));
            }
        }
    }
    // offsets that only differ from one inside the log in their high half
    for k in [8, 16, 24, 31, 32, 33, 40, 48, 56, 63] {
        for low in [0u64, 16, 58, 59, 60, total / 2, total - 1, total, total + 1] {
            for pos in 0..3 {
                let mut c = vec![0; 8];
                c.extend([1u8, 0, 0, 0, 0, 0, 0, 0]);
                for j in 0..3 {
                    let o = if j == pos { low.wrapping_add(1 << k) } else if j > pos { 20 } else { 0 };
                    c.extend(o.to_le_bytes());
                }
                let mut l = vec![(b'B', c)];
                l.extend(tail.iter().cloned());
                v.push((log_of(&l), d.clone()));
            }
        }
    }
    for n in 0..44usize {
        let c: Vec<u8> = (0..n).map(|i| if (9..16).contains(&i) || i == 8 { 0 } else { i as u8 + 1 }).collect();
        v.push((log_of(&[(b'B', c), fmt(MINI), sub(0, 1, "mini"), mini_data(1, 3)]), d.clone()));
    }
    // subscription histories over two ids and two formats, exhaustively
    let other = "other:uint8_t w;uint64_t timestamp;";
    let ops = [sub(0, 1, "mini"), sub(0, 1, "other"), sub(2, 2, "mini"), sub(0, 2, "other"), m(b'R', &[1, 0]), m(b'R', &[2, 0, 9])];
    let probe = [mini_data(1, 5), mini_data(2, 6), mini_data(3, 7)];
    let lists: Vec<Option<Vec<String>>> = vec![None, Some(vec![]), Some(vec!["mini".into()]), Some(vec!["other".into(), "mini".into()])];
    let depth: usize = if matches!(prop, "C07" | "C08" | "C19") { 4 } else { 3 };
    for code in 0..ops.len().pow(depth as u32) {
        let mut l = vec![fmt(MINI), fmt(other)];
        let mut x = code;
        for _ in 0..depth {
            l.push(ops[x % ops.len()].clone());
            l.extend(probe.iter().cloned());
            x /= ops.len();
        }
        let b = log_of(&l);
        for a in &lists {
            if a.is_some() && prop != "C07" && code % 7 != 0 {
                continue;
            }
            v.push((b.clone(), Cfg { allow: a.clone(), ..d.clone() }));
        }
    }
    // padding and timestamps in every position
    let parts = ["uint64_t timestamp;", "uint8_t[2] _padding0;", "uint16_t q;", "uint8_t[3] _padding1;", "uint32_t timestamp_sample;", "inner in;", "uint8_t _padding2;", "uint32_t timestamp;", "uint8_t padding;"];
    for a in 0..parts.len() {
        for b in 0..parts.len() {
            for c in 0..parts.len() {
                if a == b || b == c || a == c {
                    continue;
                }
                let t = format!("mini:{}{}{}", parts[a], parts[b], parts[c]);
                let l = |n: usize| {
                    log_of(&[fmt("inner:uint8_t[1] _padding0;uint64_t timestamp;uint8_t[2] _padding1;"), fmt(&t), sub(0, 1, "mini"), (b'D', (0..n as u8 + 2).map(|x| if x == 0 { 1 } else if x == 1 { 0 } else { x }).collect()), beacon(4)])
                };
                for n in if prop == "C09" || prop == "C04" { (8..28).collect::<Vec<_>>() } else { vec![16] } {
                    for cfg in all_cfg().into_iter().take(if prop == "C09" { 4 } else { 2 }) {
                        v.push((l(n), cfg));
                    }
                }
            }
        }
    }
    // key strings and format texts
    for t in [
        "", ":", "a", "a:", "a:;", "a:b", "a:b;", "a:b c", "a:b c;", "a:b c;;", "a:b c;d", "a:b[ c;", "a:b[2 c;", "a:b[2] c;", "a:b[2][3] c;", "a:b 2 c;", "a:b c[2];", "a:b]2[ c;",
        " a : b [ 2 ] c ; ", "a\n:\tb\u{a0}c;", "a:b c;\n", "a :b c;", "1a:b c;", "a1:b c;", "a:1b c;", "é:b c;", "a:b é;", "a:b c,d e;", "a:int8_t[99999999999999999999999] c;",
        "a:int8_t[18446744073709551615] c;", "a:int8_t[18446744073709551616] c;", "a:int8_t[007] c;", "a:int8_t c;int16_t d;int32_t e;int64_t f;uint8_t g;uint16_t h;uint32_t i;uint64_t j;float k;double l;bool m;char n;other o;",
        "a:Float k;FLOAT l;uint8 m;int n;u8 o;char[1] p;", "a:b c;a d;", "heartbeat:bool c;", "x_heartbeat_y:float[3] c;", "a:b c;?", "a:b-c;", "a/b:c d;", "a:b c.d;", "a b:c d;", "a:b c d;", "a:_ _;", "a:b[-1] c;", "a:b[+1] c;", "a:b[0x2] c;", "a:b[] c;",
    ] {
        v.push((log_of(&[fmt(t), fmt(MINI), sub(0, 1, "mini"), sub(0, 2, "a"), mini_data(2, 1)]), d.clone()));
        for mt in [b'I', b'M', b'P', b'Q'] {
            let t = t.strip_prefix("a:").unwrap_or(t);
            let mut kc = vec![];
            if mt == b'M' || mt == b'Q' {
                kc.push(1);
            }
            kc.push(t.len() as u8);
            kc.extend(t.as_bytes());
            kc.extend([1, 2, 3, 4, 5, 6, 7, 8]);
            v.push((log_of(&[(mt, kc.clone()), fmt(MINI), sub(0, 1, "mini"), (mt, kc), beacon(5)]), d.clone()));
        }
    }
    // key lengths
    for n in 0..=255u8 {
        let mut c = vec![n];
        c.extend(b"int32_t k\x01\x02\x03\x04");
        v.push((defs(vec![(b'I', c.clone()), (b'P', c.clone())], vec![beacon(1)]), d.clone()));
        c.insert(0, n);
        v.push((defs(vec![(b'M', c.clone()), (b'Q', c.clone())], vec![beacon(1)]), d.clone()));
    }
    // headers
    let good = log_of(&tail);
    for i in 0..16 {
        for x in [1u8, 0x80, 0xFF] {
            for header in [false, true] {
                let mut b = good.clone();
                b[i] ^= x;
                v.push((b, Cfg { header, ..d.clone() }));
            }
        }
    }
    // truncations of a log with one message of each type
    let mut all = vec![];
    {
        let mut r = Rng::new(42, 42);
        let mut p = BASE;
        p.canonical = true;
        p.malformed = 0;
        let mut g = Gen::new(&mut r, p);
        g.emit_flags();
        g.emit_format();
        g.emit_format();
        let n = g.order[0].clone();
        g.emit_sub_of(0, 1, &n);
        for a in [4, 5, 6, 7, 8, 9, 10, 3, 12, 3, 2] {
            g.emit(a);
        }
        all.extend(g.bytes());
    }
    for n in 0..=all.len() {
        v.push((all[..n].to_vec(), Cfg { header: n % 2 == 0, ..d.clone() }));
    }
    // truncations of long messages, in both phases
    for size in [255usize, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12288, 16384, 32767, 32768, 65535] {
        if !matches!(prop, "C02" | "C01" | "C03") {
            break;
        }
        for late in [false, true] {
            let mut l = vec![fmt(MINI)];
            if late {
                l.push(sub(0, 1, "mini"));
            }
            let head = log_of(&l);
            let mut whole = head.clone();
            whole.extend(&log_of(&[(b'z', (0..size).map(|x| (x * 31 + 7) as u8).collect()), beacon(1)])[16..]);
            let start = head.len() + 3;
            let mut cuts: Vec<usize> = vec![0, 1, 2, size / 2, size - 1, size, size + 1, size + 2, size + 3, size + 4];
            for b in [256usize, 512, 1024, 2048, 4096, 8192, 16384, 32768] {
                for k in 1..=3 {
                    cuts.extend([b * k - 1, b * k, b * k + 1]);
                }
            }
            for c in cuts {
                if start + c <= whole.len() {
                    v.push((whole[..start + c].to_vec(), Cfg { header: false, ..d.clone() }));
                }
            }
        }
    }
    // definitions that come too late, of names old and new
    for late in ["mini:uint64_t timestamp;uint16_t w;", "mini:uint8_t v;uint64_t timestamp;", "late:uint64_t timestamp;uint8_t v;", "mini_:uint64_t timestamp;uint8_t v;", "inner:uint16_t q;", "other:uint64_t timestamp;uint8_t v;"] {
        for name in ["mini", "late", "mini_", "outer", "other"] {
            for id in [1u16, 2] {
                for before in [false, true] {
                    let mut l = vec![fmt("inner:uint8_t q;"), fmt("outer:inner i;uint64_t timestamp;"), fmt(MINI), fmt("other:uint8_t w;uint64_t timestamp;")];
                    l.push(sub(0, 1, "mini"));
                    if before {
                        l.push(sub(0, id, name));
                    }
                    l.push(fmt(late));
                    l.push(mini_data(1, 4));
                    if !before {
                        l.push(sub(0, id, name));
                    }
                    l.extend([mini_data(1, 5), mini_data(id, 6), beacon(1)]);
                    let mut c = vec![1, 0];
                    c.extend(0..10u8);
                    l.push((b'D', c));
                    v.push((log_of(&l), d.clone()));
                }
            }
        }
    }
    // nesting: chains around the least permitted depth, cycles
    for n in [1usize, 2, 5, 15, 16] {
        for arr in ["", "[1]", "[2]"] {
            let mut l = vec![];
            for i in 0..=n {
                let ts = if i == 0 { "uint64_t timestamp;" } else { "" };
                let body = if i == n { "uint8_t v;".into() } else { format!("n{}{} c;", i + 1, if i == 0 { arr } else { "" }) };
                l.push(fmt(&format!("n{i}:{ts}{body}uint8_t t;")));
            }
            l.push(sub(0, 1, "n0"));
            for k in [0, 1, 2, n, n + 1, n + 2, 2 * n + 3, 2 * n + 4, 60] {
                let mut c = vec![1, 0];
                c.extend((0..8 + k).map(|x| x as u8));
                l.push((b'D', c));
            }
            v.push((log_of(&l), d.clone()));
        }
    }
    for cyc in ["mini:uint64_t timestamp;mini c;", "mini:uint64_t timestamp;mini[1] c;", "mini:uint64_t timestamp;mini[0] c;", "mini:mini c;uint64_t timestamp;", "mini:uint64_t timestamp;other c;"] {
        v.push((log_of(&[fmt(cyc), fmt("other:mini c;"), sub(0, 1, "mini"), mini_data(1, 0), (b'D', [&[1u8, 0][..], &[0u8; 4000][..]].concat()), beacon(3)]), d.clone()));
    }
    // array sizes that cannot be there
    for n in ["18446744073709551615", "9223372036854775807", "4611686018427387904", "2305843009213693952", "1152921504606846976", "4294967296", "4294967295", "2147483648", "70000", "65536", "65535", "9"] {
        for t in ["uint8_t", "uint64_t", "char", "inner", "bool"] {
            for name in ["v", "_padding0"] {
                let f = format!("mini:uint64_t timestamp;{t}[{n}] {name};");
                v.push((log_of(&[fmt("inner:uint8_t q;"), fmt(&f), sub(0, 1, "mini"), mini_data(1, 0), beacon(3)]), d.clone()));
            }
            let key = format!("{t}[{n}] v");
            let mut c = vec![key.len() as u8];
            c.extend(key.as_bytes());
            c.extend([1, 2, 3]);
            v.push((log_of(&[fmt("inner:uint8_t q;"), (b'I', c), beacon(3)]), d.clone()));
        }
    }
    // the longest message
    let mut big = vec![1, 0];
    big.extend((0..65533u32).map(|x| (x * 7) as u8));
    v.push((log_of(&[fmt("mini:uint64_t timestamp;uint8_t[65525] v;"), sub(0, 1, "mini"), (b'D', big), beacon(3)]), d.clone()));
    v.push((log_of(&[(b'x', vec![7; 65535]), beacon(3)]), d));
    v
}

/// Logs with more of everything than a table or a counter made too small can hold.
fn many(d: &Cfg) -> Vec<(Vec<u8>, Cfg)> {
    let mut v: Vec<(Vec<u8>, Cfg)> = vec![];
    let all = |k: &str| -> Cfg { Cfg { allow: Some((0..700).filter(|i| i % 3 != 1).map(|i| format!("{k}{i}")).collect()), ..d.clone() } };
    // formats and subscriptions, with instances, some removed or replaced
    let mut l: Vec<(u8, Vec<u8>)> = (0..700).map(|i| fmt(&format!("f{i}:uint64_t timestamp;uint{}_t v;", [8, 16, 32, 64][i % 4]))).collect();
    for round in 0..2u16 {
        for i in 0..700u16 {
            l.push(sub(if i % 5 == 0 { (i % 256) as u8 } else { 0 }, i * 93 + round, &format!("f{}", if i % 7 == 0 { (i + round) % 700 } else { i })));
            if i % 11 == 3 {
                l.push(m(b'R', &(i * 93).to_le_bytes()));
            }
        }
        for i in 0..700u16 {
            let mut c = (i * 93).to_le_bytes().to_vec();
            c.extend((0..16u16).map(|x| (x * 17 + i) as u8));
            l.push((b'D', c));
        }
    }
    v.push((log_of(&l), d.clone()));
    v.push((log_of(&l), all("f")));
    // messages, in both phases; errors in a row; the same id again and again
    for late in [false, true] {
        let mut l = vec![fmt(MINI)];
        if late {
            l.push(sub(0, 1, "mini"));
        }
        let n = l.len();
        for i in 0..66_000u32 {
            l.push(beacon(i));
        }
        v.push((log_of(&l), d.clone()));
        l.truncate(n);
        for i in 0..1100u32 {
            l.push((*[b'I', b'P', b'L', b'D'].get(i as usize / 275).unwrap(), vec![]));
            if i % 275 == 274 {
                l.extend([mini_data(1, 7), beacon(i)]);
            }
        }
        v.push((log_of(&l), d.clone()));
        l.truncate(n);
        for i in 0..600u32 {
            l.push(m(b'I', &[&[11][..], &b"uint8_t key"[..], &[i as u8][..]].concat()));
            l.push(m(b'P', &[&[9][..], format!("int32_t {}", (b'a' + (i % 26) as u8) as char).as_bytes(), &i.to_le_bytes()[..]].concat()));
        }
        v.push((log_of(&l), d.clone()));
    }
    let mut l = vec![fmt(MINI), fmt("other:uint64_t timestamp;")];
    for i in 0..600u16 {
        l.extend([sub((i / 2) as u8, 1, ["mini", "other"][i as usize % 2]), mini_data(1, i as u8), mini_data(2, 0)]);
    }
    v.push((log_of(&l), d.clone()));
    v.push((log_of(&l), Cfg { allow: Some(vec!["other".into()]), ..d.clone() }));
    let mut l = vec![fmt(MINI), sub(0, 1, "mini")];
    for i in 0..20_000u32 {
        l.push(mini_data(1, i as u8));
    }
    v.push((log_of(&l), d.clone()));
    // instances of one name
    let mut l = vec![fmt(MINI)];
    for i in 0..=255u8 {
        l.extend([sub(i, i as u16, "mini"), mini_data(i as u16, i), mini_data(0, i)]);
    }
    v.push((log_of(&l), d.clone()));
    // fields
    for n in [129usize, 257, 600] {
        let body: String = (0..n).map(|i| format!("uint8_t[{}] f{i};{}", i % 3, if i % 50 == 49 { "uint8_t[1] _padding0;" } else { "" })).collect();
        let mut c = vec![1, 0];
        c.extend((0..2 * n + 40).map(|x| x as u8));
        let l = vec![fmt(&format!("wide:{body}uint64_t timestamp;")), fmt(&format!("deep:uint64_t timestamp;wide w;wide[2] x;mini[{n}] y;")), fmt(MINI), sub(0, 1, "wide"), (b'D', c), sub(0, 2, "deep"), (b'D', {
            let mut c = vec![2, 0];
            c.extend((0..3 * (2 * n + 40) + 9 * n + 20).map(|x| x as u8));
            c
        })];
        for ts in [false, true] {
            v.push((log_of(&l), Cfg { ts, pad: ts, ..d.clone() }));
        }
    }
    // offsets beyond what small counters hold
    for off in [65_540u64, 70_000, 131_080, 200_000] {
        let mut flags = vec![0u8; 40];
        flags[8] = 1;
        flags[24..32].copy_from_slice(&off.to_le_bytes());
        let mut l = vec![(b'B', flags), fmt(MINI), sub(0, 1, "mini")];
        l.extend((0..60).map(|i| (b'x', vec![i as u8; 4000 + 13 * i])));
        v.push((log_of(&l), d.clone()));
    }
    v
}

/// Logs with the new numbers of the source as sizes, counts and values, and its new words as names and texts.
fn literal(d: &Cfg) -> Vec<(Vec<u8>, Cfg)> {
    let mut v: Vec<(Vec<u8>, Cfg)> = vec![];
    let start = || vec![fmt(MINI), fmt("other:uint64_t timestamp;")];
    let key = |k: &str| -> Vec<u8> { [&[k.len() as u8][..], k.as_bytes()].concat() };
    let mut add = |l: &[(u8, Vec<u8>)]| {
        if l.iter().all(|(_, c)| c.len() < 65536) {
            v.push((log_of(l), d.clone()));
            v.push((log_of(l), Cfg { ts: false, pad: false, header: false, allow: Some(vec!["mini".into(), "wide".into()]) }));
        }
    };
    let nums: Vec<u64> = dict().nums.iter().flat_map(|n| [n.wrapping_sub(1), *n, n.wrapping_add(1)]).collect();
    for &x in &nums {
        // a value
        let b = x.to_le_bytes();
        let mut flags = vec![0u8; 40];
        flags[8] = 1;
        flags[24..32].copy_from_slice(&b);
        for head in [vec![], vec![(b'B', flags)]] {
            let mut l = head;
            l.extend(start());
            l.extend([fmt(&format!("wide:uint64_t timestamp;uint8_t[{x}] v;uint8_t w;")), fmt(&format!("big:uint64_t timestamp;mini[{x}] v;")), sub(b[0], x as u16, "mini"), sub(0, x as u16 ^ 1, "other")]);
            l.extend([(b'D', [&b[..2], &b[..], &b[..1]].concat()), (b'D', [&[b[0] ^ 1, b[1]][..], &b[..]].concat())]);
            for t in ALL_TY.into_iter().filter(|t| *t != Ty::Bool) {
                l.push((b'I', [key(&format!("{} key", t.name())), b[..t.size()].to_vec()].concat()));
            }
            for t in ["int32_t", "float"] {
                let c = [key(&format!("{t} key")), b[..4].to_vec()].concat();
                l.push((b'Q', [&b[..1], &c[..]].concat()));
                l.push((b'P', c));
            }
            l.extend([(b'L', [&[b'4'], &b[..], b"text"].concat()), (b'C', [&[b'4'], &b[..2], &b[..], b"text"].concat()), (b'L', [&b[..1], &b[..], b"text"].concat()), (b'O', b[..2].to_vec()), (b'S', b.to_vec()), (b[0], b.to_vec()), mini_data(x as u16, 1)]);
            l.push(m(b'R', &b[..2]));
            l.push(mini_data(x as u16, 1));
            add(&l);
        }
        if x > 70_000 {
            continue;
        }
        // a size
        let n = x as usize;
        let mut l = start();
        l.extend([(b'z', vec![7; n.min(65535)]), fmt(&format!("wide:uint64_t timestamp;uint8_t[{n}] v;")), fmt(&format!("wide2:uint64_t timestamp;uint16_t[{n}] v;mini[{n}] w;")), fmt(&format!("{}:uint64_t timestamp;", "n".repeat(n.clamp(1, 60_000)))), sub(0, 1, "mini"), sub(0, 2, "wide"), sub(0, 3, "wide2")]);
        l.push(sub(1, 4, &"n".repeat(n.clamp(1, 60_000))));
        for (id, k) in [(2u8, 8 + n), (3, 8 + 11 * n), (1, n), (4, n), (9, n)] {
            let mut c = vec![id, 0];
            c.extend((0..k).map(|i| i as u8));
            if c.len() < 65536 {
                l.push((b'D', c));
            }
        }
        for t in [b'L', b'C', b'S', b'z', b'O', b'B', b'F', b'R'] {
            for more in [0, 9, 11] {
                let mut c = vec![b'4'; n + more];
                c.truncate(65535);
                l.push((t, c));
            }
        }
        for t in ["uint8_t", "char", "uint16_t"] {
            let c = [key(&format!("{t}[{n}] key")), vec![b'a'; n * if t == "uint16_t" { 2 } else { 1 }]].concat();
            l.push((b'M', [&[1][..], &c[..]].concat()));
            l.push((b'I', c));
        }
        if (10..=255).contains(&n) {
            for w in [format!("int32_t {}", "k".repeat(n - 8)), "k".repeat(n)] {
                l.push((b'P', [key(&w), vec![1; 4]].concat()));
                l.push((b'I', [key(&w), vec![1; 4]].concat()));
            }
        }
        l.retain(|(_, c)| c.len() < 65536);
        add(&l);
        // a number of messages of one kind, in either phase
        if n > 20_000 {
            continue;
        }
        for late in [false, true] {
            for kind in 0..7u8 {
                let mut l = start();
                if late {
                    l.push(sub(0, 1, "mini"));
                }
                for i in 0..n {
                    l.push(match kind {
                        0 => (b'I', vec![]),
                        1 => beacon(i as u32),
                        2 => sub(i as u8, i as u16, "mini"),
                        3 => fmt(&format!("f{i}:uint64_t timestamp;")),
                        4 => mini_data(1, i as u8),
                        5 => m(b'R', &(i as u16).to_le_bytes()),
                        _ => (b'P', [key(&format!("int32_t k{i}")), vec![1; 4]].concat()),
                    });
                }
                l.extend([sub(0, 1, "mini"), mini_data(1, 5), sub(1, 7, "mini"), mini_data(7, 5), mini_data(1, 5), (b'I', vec![]), beacon(9), mini_data(1, 6)]);
                add(&l);
            }
        }
        if n < 3000 {
            let body: String = (0..n).map(|i| format!("uint8_t f{i};")).collect();
            let mut c = vec![1, 0];
            c.extend((0..n + 8).map(|x| x as u8));
            add(&[fmt(&format!("wide:{body}uint64_t timestamp;")), sub(0, 1, "wide"), (b'D', c)]);
        }
    }
    for w in dict().words.iter().flat_map(|w| [w.clone(), format!("{w}x"), format!("x{w}"), format!("x{w}y"), w.to_uppercase(), w.to_lowercase()]) {
        if w.len() > 100 {
            continue;
        }
        let mut l = start();
        l.extend([fmt(&format!("{w}:uint64_t timestamp;uint8_t {w};")), fmt(&format!("wide:uint64_t timestamp;{w} a;uint8_t b;")), fmt(&format!("wide:uint64_t timestamp;uint8_t {w};uint8_t[2] {w}_;mini {w};uint8_t z;")), fmt(&w), sub(0, 1, "mini"), sub(0, 2, &w), sub(1, 3, "wide"), sub(2, 2, &w)]);
        for (id, k) in [(2u8, 9), (3, 21), (2, 9), (3, 12)] {
            let mut c = vec![id, 0];
            c.extend((0..k).map(|i| 0x31 + i as u8));
            l.push((b'D', c));
        }
        for more in ["", "4", "4\x01\x02\x03\x04\x05\x06\x07\x08", "4\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a"] {
            for t in [b'L', b'C', b'z', b'S', b'O', b'R', b'B', b'D'] {
                l.push((t, format!("{more}{w}").into_bytes()));
                l.push((t, format!("{more}text{w}text").into_bytes()));
                l.push((t, format!("{more}text{w}").into_bytes()));
            }
        }
        for (t, k) in [("char", w.len()), ("uint8_t", w.len()), ("int32_t", 0)] {
            for name in [w.as_str(), "key"] {
                let ty = if k > 0 { format!("{t}[{k}]") } else { t.to_string() };
                let c = [key(&format!("{ty} {name}")), if k > 0 { w.clone().into_bytes() } else { vec![5; 4] }].concat();
                for first in [0u8, 1] {
                    l.push((b'M', [&[first][..], &c[..]].concat()));
                    l.push((b'Q', [&[first][..], &c[..]].concat()));
                }
                l.push((b'I', c.clone()));
                l.push((b'P', c));
            }
        }
        add(&l);
    }
    v
}

// ---------------------------------------------------------------- per property

fn out(viol: Option<Viol>, b: &[u8], nontrivial: bool) -> Out {
    Out { viol, nontrivial, hash: hash(b), sample: if b.len() <= 400 { hex(b) } else { format!("{}… ({} bytes)", hex(&b[..200]), b.len()) } }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Malformed messages between beacons: each message gives exactly one item.
fn beacons(b: &[u8], msgs: &[(u8, Vec<u8>)], cfg: &Cfg, mode: Mode) -> Option<Viol> {
    let act = actual(b, &Cfg { header: false, ..cfg.clone() }, mode);
    let fail = |what: String, e: String, a: String| Some(Viol { what, bytes: b.to_vec(), cfg: cfg.clone(), expected: e, actual: a });
    if act.crash.is_some() {
        return None;
    }
    if act.items.len() != msgs.len() {
        return fail("one item per message".into(), format!("{} items", msgs.len()), format!("{} items", act.items.len()));
    }
    for (i, (t, c)) in msgs.iter().enumerate() {
        if *t == b'z' && c.starts_with(b"beacon") {
            let e = Ok(Item::Unhandled { ty: *t, bytes: c.clone() });
            if act.items[i] != e {
                return fail(format!("message {i} follows other messages unharmed"), short(&e), short(&act.items[i]));
            }
        }
    }
    None
}

fn random_flags_free(msgs: &[(u8, Vec<u8>)]) -> bool {
    // no message that ends the iteration early
    msgs.iter().all(|(t, c)| *t != b'B' || c.len() < 40 || c[8] & 1 == 0)
}

pub fn case(prop: &str, seed: u64, idx: u64, sys: &[(Vec<u8>, Cfg)], env: &Env) -> Out {
    if matches!(prop, "C06" | "C13" | "C14" | "C16" | "C20" | "C21") {
        return crate::direct::case(prop, seed, idx);
    }
    let r = &mut Rng::new(seed, idx.wrapping_mul(31).wrapping_add(hash(prop.as_bytes())));
    if (idx as usize) < sys.len() {
        let (b, cfg) = &sys[idx as usize];
        let viol = dedicated(prop, b, cfg, Mode::Whole, env, r);
        return out(viol, b, true);
    }
    let mut p = profile(prop);
    if r.chance(1, 8) && prop != "C05" {
        p = BASE;
    }
    if r.chance(1, 20) {
        p.msgs = 60;
    }
    if r.chance(1, 60) {
        p.msgs = 400;
        p.few_ids = false;
    }
    if r.chance(1, 12) {
        p.few_ids = false;
    }
    if r.chance(1, 40) {
        p.n_formats = 60;
    }
    let (mut b, mut msgs, names) = gen_log(r, p);
    let cfg = random_cfg(r, prop, &names);
    if prop == "C01" {
        let mut l = vec![];
        for (i, x) in msgs.into_iter().enumerate() {
            l.push(x);
            l.push(beacon(i as u32));
        }
        msgs = l;
        let mut g = b[..16].to_vec();
        for (t, c) in &msgs {
            g.extend((c.len() as u16).to_le_bytes());
            g.push(*t);
            g.extend(c);
        }
        b = g;
    }
    if prop == "C12" && r.chance(1, 6) {
        let i = r.below(16);
        b[i] ^= 1 << r.below(8);
    }
    if prop == "C02" || (prop == "C12" && r.chance(1, 6)) {
        let n = r.below(b.len() + 1);
        b.truncate(n);
    }
    if prop == "C03" {
        match r.below(4) {
            0 => {
                for _ in 0..r.range(1, 6) {
                    let i = r.below(b.len());
                    b[i] = r.byte();
                }
            }
            1 => {
                let i = r.range(16.min(b.len()), b.len());
                let n = r.below(60);
                let x = r.bytes(n);
                b.splice(i..i, x);
            }
            2 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            _ => {}
        }
    }
    let mode = if r.chance(1, 3) { Mode::Chunks(r.u64()) } else { Mode::Whole };
    let viol = dedicated(prop, &b, &cfg, mode, env, r);
    let viol = viol.map(|v| shrink(v, &|b, c| dedicated(prop, b, c, mode, env, &mut Rng::new(1, 1))));
    let nontrivial = match prop {
        "C02" => b.len() > 16,
        "C04" | "C08" | "C09" | "C19" | "C07" => msgs.iter().any(|m| m.0 == b'D'),
        "C10" => msgs.iter().any(|m| m.0 == b'B'),
        "C11" => msgs.iter().any(|m| m.0 == b'F'),
        "C17" => msgs.iter().any(|m| b"IMPQ".contains(&m.0)),
        "C18" => msgs.iter().any(|m| b"LCO".contains(&m.0)),
        _ => msgs.len() > 1,
    };
    out(viol, &b, nontrivial)
}

fn split(b: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let mut l = vec![];
    let mut p = 16;
    if b.len() < 16 || b[..7] != [0x55, 0x4c, 0x6f, 0x67, 1, 0x12, 0x35] {
        return None;
    }
    while p < b.len() {
        if p + 3 > b.len() {
            return None;
        }
        let n = u16::from_le_bytes([b[p], b[p + 1]]) as usize;
        if p + 3 + n > b.len() {
            return None;
        }
        l.push((b[p + 2], b[p + 3..p + 3 + n].to_vec()));
        p += 3 + n;
    }
    Some(l)
}

/// A reader that fails after these bytes: the complete messages, then an error, and no message after it.
fn reader_fails(b: &[u8], cfg: &Cfg, mode: Mode, full: &crate::drive::Act, fr: &crate::refmodel::Run) -> Option<Viol> {
    use std::io::ErrorKind::*;
    if full.crash.is_some() || matches!(fr.end, End::BadHeader | End::Limit) {
        return None;
    }
    let kinds = [
        Other, BrokenPipe, TimedOut, InvalidData, PermissionDenied, WouldBlock, ConnectionReset, NotFound, ConnectionRefused, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable,
        NetworkDown, AlreadyExists, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy,
        ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, ArgumentListTooLong, Unsupported, OutOfMemory,
    ];
    let k = kinds[hash(b) as usize % kinds.len()];
    let whole = if b.len() < 16 { 0 } else { fr.items.iter().take_while(|e| e.res != Err("truncated")).count() };
    let a = crate::drive::faulty(b, cfg, mode, k, whole + 6);
    let ok = a.crash.is_none()
        && a.items.len() > whole
        && full.items.len() >= whole
        && (0..whole).all(|i| full.items[i].is_ok() == a.items[i].is_ok() && (full.items[i].is_err() || full.items[i] == a.items[i]))
        && a.items[whole..].iter().all(|x| x.is_err());
    if ok {
        return None;
    }
    Some(Viol {
        what: format!("the reader fails ({k:?}) after {} bytes: {} items instead of {whole} and an error; {:?}", b.len(), a.items.len(), a.crash),
        bytes: b.to_vec(),
        cfg: cfg.clone(),
        expected: format!("{} then an error", short(&full.items[..whole.min(full.items.len())].to_vec())),
        actual: format!("{}{}", short(&a.items), if a.ended { " then the end" } else { "" }),
    })
}

/// The property's own oracle, then the comparison with the reference model.
fn dedicated(prop: &str, b: &[u8], cfg: &Cfg, mode: Mode, env: &Env, r: &mut Rng) -> Option<Viol> {
    let fail = |what: String, e: String, a: String| Some(Viol { what, bytes: b.to_vec(), cfg: cfg.clone(), expected: e, actual: a });
    if too_big(b, env.depth) {
        return None;
    }
    let v = match prop {
        "C01" => split(b).and_then(|l| if random_flags_free(&l) { beacons(b, &l, cfg, mode) } else { None }),
        "C02" => {
            // The items of a cut log are those of the whole log, then an error if the cut is inside a message.
            let n = r.below(b.len() + 1);
            let full = actual(b, cfg, mode);
            let cut = actual(&b[..n], cfg, mode);
            let fr = run(b, cfg, env.depth);
            if let Some(v) = reader_fails(b, cfg, mode, &full, &fr) {
                return Some(v);
            }
            if full.crash.is_some() || cut.crash.is_some() || matches!(fr.end, End::BadHeader) || n < 16 {
                None
            } else {
                let whole = fr.items.iter().take_while(|e| e.end <= n && e.res != Err("truncated")).count();
                let inside = fr.items.get(whole).is_some_and(|e| n > e.start + 2);
                let same = cut.items.len() >= whole
                    && full.items.len() >= whole
                    && (0..whole).all(|i| match (&full.items[i], &cut.items[i]) {
                        (Ok(x), Ok(y)) => x == y,
                        (Err(_), Err(_)) => true,
                        _ => false,
                    });
                // A reader that reports the end as an error of its own.
                let own = crate::drive::faulty(&b[..n], cfg, mode, std::io::ErrorKind::UnexpectedEof, whole + 3);
                let own_ok = own.crash.is_none()
                    && own.items.len() >= whole + inside as usize
                    && full.items.len() >= whole
                    && (0..whole).all(|i| full.items[i].is_ok() == own.items[i].is_ok() && (full.items[i].is_err() || full.items[i] == own.items[i]))
                    && own.items[whole..].iter().all(|x| x.is_err());
                if same && !own_ok {
                    return Some(Viol {
                        what: format!("a reader that reports UnexpectedEof after byte {n}: {whole} complete messages, {} a message; {:?}", if inside { "inside" } else { "outside" }, own.crash),
                        bytes: b[..n].to_vec(),
                        cfg: cfg.clone(),
                        expected: format!("{} then {}", short(&full.items[..whole.min(full.items.len())].to_vec()), if inside { "an error" } else { "the end" }),
                        actual: short(&own.items),
                    });
                }
                let rest: Vec<_> = cut.items.iter().skip(whole).collect();
                let ok_rest = if inside { rest.len() == 1 && rest[0].is_err() } else { rest.iter().all(|x| x.is_err()) && rest.len() <= 1 };
                if !same || !ok_rest {
                    let bb = b[..n].to_vec();
                    Some(Viol {
                        what: format!("log cut at byte {n}: {whole} complete messages, cut {} a message", if inside { "inside" } else { "outside" }),
                        bytes: bb,
                        cfg: cfg.clone(),
                        expected: format!("{} then {}", short(&full.items[..whole.min(full.items.len())].to_vec()), if inside { "one error" } else { "the end" }),
                        actual: short(&cut.items),
                    })
                } else {
                    None
                }
            }
        }
        "C03" => {
            let trace = r.chance(1, 2);
            let act = actual_with(b, cfg, mode, &[], trace, |m| {
                // Values can be shown and encoded, too.
                let mut v = Vec::new();
                let _ = yule_log::encode::Encode::encode(m, &mut v);
            });
            match act.crash {
                Some(c) => fail("the parser crashes".into(), "an item or an error".into(), c),
                None if !act.ended => fail("the iteration does not end".into(), "end".into(), format!("{} items", act.items.len())),
                None => None,
            }
        }
        "C05" => {
            let full = Cfg { header: true, ts: true, pad: true, allow: None };
            let mut enc = Vec::new();
            let mut n = 0;
            let mr = run(b, &full, env.depth);
            // Only well-formed logs: no error, and the description accounts for every byte.
            let mut want = Vec::new();
            let mut canonical = matches!(mr.end, End::Clean);
            for e in &mr.items {
                match &e.res {
                    Ok(i) => match encode(i) {
                        Some(x) if x == b[e.start..e.end] => want.extend(x),
                        _ => canonical = false,
                    },
                    Err(_) => canonical = false,
                }
            }
            if !canonical {
                return None;
            }
            let act = actual_with(b, &full, mode, &[], false, |m| {
                if yule_log::encode::Encode::encode(m, &mut enc).is_ok() {
                    n += 1;
                }
            });
            if act.crash.is_some() || enc != *b {
                let at = enc.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(enc.len().min(b.len()));
                fail(format!("re-encoding differs at byte {at} ({n} messages encoded)"), hex(b), format!("{} {}", hex(&enc), act.crash.unwrap_or_default()))
            } else {
                None
            }
        }
        "C09" => {
            // Every setting gives the fields of the all-inclusive setting, filtered.
            let base = actual(b, &Cfg { ts: true, pad: true, ..cfg.clone() }, mode);
            let mut res = None;
            for k in 0..3u8 {
                let c = Cfg { ts: k & 1 != 0, pad: k & 2 != 0, ..cfg.clone() };
                let a = actual(b, &c, mode);
                if a.crash.is_some() || base.crash.is_some() {
                    break;
                }
                for (x, y) in base.items.iter().zip(a.items.iter()) {
                    if let (Ok(Item::Data { ts, data, .. }), Ok(Item::Data { ts: ts2, data: d2, .. })) = (x, y) {
                        let want: Vec<FieldV> = data
                            .fields
                            .iter()
                            .filter(|f| (c.ts || f.name != "timestamp") && (c.pad || !f.name.starts_with("_padding")))
                            .cloned()
                            .collect();
                        // inside nested formats padding is dropped as well: compare the top level by name
                        let names = |v: &[FieldV]| v.iter().map(|f| f.name.clone()).collect::<Vec<_>>();
                        if ts != ts2 || names(&want) != names(&d2.fields) {
                            res = Some(Viol { what: "options change more than they should".into(), bytes: b.to_vec(), cfg: c.clone(), expected: format!("ts {ts} {}", short(&want)), actual: format!("ts {ts2} {}", short(&d2.fields)) });
                        }
                    } else if x.is_ok() != y.is_ok() {
                        res = Some(Viol { what: "options change what is yielded".into(), bytes: b.to_vec(), cfg: c.clone(), expected: short(x), actual: short(y) });
                    }
                }
            }
            res
        }
        "C11" => {
            // Encoding a parsed definition and parsing it again gives the same definition.
            let mut texts = vec![];
            let act = actual_with(b, cfg, mode, &[], false, |m| {
                if let yule_log::model::msg::UlogMessage::FormatDefinition(f) = m {
                    let mut v = Vec::new();
                    let ok = yule_log::encode::Encode::encode(m, &mut v).is_ok();
                    texts.push((format_v(f), ok, v));
                }
            });
            let mut res = None;
            for (f, ok, v) in texts {
                if act.crash.is_some() {
                    break;
                }
                let want = format_text(&f);
                if want.len() > 65535 {
                    continue;
                }
                let b2 = [&b[..16], &v[..]].concat();
                let again = actual(&b2, &Cfg::default(), Mode::Whole);
                if !ok || again.items != vec![Ok(Item::Format(f.clone()))] {
                    res = fail("an encoded definition parses differently".into(), short(&f), format!("{} -> {}", String::from_utf8_lossy(&v), short(&again.items)));
                }
            }
            res
        }
        "C12" => {
            // Data that arrives after the end changes nothing.
            let late = log_of(&[beacon(9), beacon(10)])[16..].to_vec();
            let mr = run(b, cfg, env.depth);
            if matches!(mr.end, End::Clean | End::Limit) {
                let act = actual_with(b, cfg, mode, &late, false, |_| {});
                if act.after_end {
                    fail("an item after the end of the iteration".into(), "None".into(), "Some".into())
                } else {
                    None
                }
            } else {
                None
            }
        }
        _ => None,
    };
    v.or_else(|| if matches!(prop, "C05") { None } else { check_bytes(prop, b, cfg, mode, env) })
}
