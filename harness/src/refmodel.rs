//! Executable reading of the properties: what the parser has to yield for a byte stream.
//! It is written from the ULog description and the property statements, not from the parser.
use crate::view::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Cfg {
    pub header: bool,
    pub ts: bool,
    pub pad: bool,
    pub allow: Option<Vec<String>>,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub res: Result<Item, &'static str>,
    pub start: usize,
    pub end: usize,
    /// Type byte, 0 for the file header.
    pub ty: u8,
    /// 'H'eader, 'D'efinitions or d'A'ta
    pub phase: char,
    /// The message concerns a format that was defined in the data phase.
    pub late: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    /// At a message boundary.
    Clean,
    /// At the appended-data offset.
    Limit,
    /// In the middle of a message, which is an error.
    Truncated,
    /// In the two size bytes: an error or a plain end.
    InSize,
    /// The header is wrong: only errors may follow.
    BadHeader,
}
#[derive(Clone, Debug)]
pub struct Run {
    pub items: Vec<Exp>,
    pub end: End,
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Tok {
    Id(String),
    Num(usize),
    P(char),
    Bad,
}

pub fn tokens(s: &str) -> Vec<Tok> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_ascii_alphabetic() || ch == '_' {
            let mut j = i;
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            out.push(Tok::Id(c[i..j].iter().collect()));
            i = j;
        } else if ch.is_ascii_digit() {
            let mut v: u128 = 0;
            let mut big = false;
            while i < c.len() && c[i].is_ascii_digit() {
                v = v * 10 + (c[i] as u128 - '0' as u128);
                if v > usize::MAX as u128 {
                    big = true;
                    v = 0;
                }
                i += 1;
            }
            out.push(if big { Tok::Bad } else { Tok::Num(v as usize) });
        } else {
            if ":;[]".contains(ch) {
                out.push(Tok::P(ch));
            } else if !ch.is_whitespace() {
                out.push(Tok::Bad);
            }
            i += 1;
        }
    }
    out
}

/// type, optional [n], name. Gives the field and the number of tokens used.
pub fn field(t: &[Tok]) -> Option<((String, TypeV), usize)> {
    let Some(Tok::Id(tn)) = t.first() else { return None };
    let base = match Ty::from_name(tn) {
        Some(p) => Base::P(p),
        None => Base::O(tn.clone()),
    };
    let mut n = 1;
    let mut arr = None;
    if t.get(1) == Some(&Tok::P('[')) {
        match (t.get(2), t.get(3)) {
            (Some(Tok::Num(k)), Some(Tok::P(']'))) => arr = Some(*k),
            _ => return None,
        }
        n = 4;
    }
    match t.get(n) {
        Some(Tok::Id(name)) => Some(((name.clone(), TypeV { base, arr }), n + 1)),
        _ => None,
    }
}

pub fn format_def(bytes: &[u8]) -> Result<FormatV, &'static str> {
    let s = std::str::from_utf8(bytes).map_err(|_| "format: invalid UTF-8")?;
    let t = tokens(s);
    let (Some(Tok::Id(name)), Some(Tok::P(':'))) = (t.first(), t.get(1)) else {
        return Err("format: no name and colon");
    };
    let mut i = 2;
    let mut fields = vec![];
    while i < t.len() {
        let (f, n) = field(&t[i..]).ok_or("format: bad field")?;
        i += n;
        if t.get(i) != Some(&Tok::P(';')) {
            return Err("format: no semicolon");
        }
        i += 1;
        fields.push(f);
    }
    Ok(FormatV { name: name.clone(), fields })
}

pub struct Cur<'a>(pub &'a [u8]);
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn le(&mut self, n: usize) -> Option<u64> {
        Some(self.take(n)?.iter().rev().fold(0u64, |a, &b| (a << 8) | b as u64))
    }
    pub fn scalar(&mut self, t: Ty) -> Option<u64> {
        let v = self.le(t.size())?;
        Some(if t == Ty::Bool { (v != 0) as u64 } else { v })
    }
}

pub type Formats = HashMap<String, FormatV>;

pub fn value(t: &TypeV, c: &mut Cur, formats: &Formats, pad: bool, depth: usize, max: usize) -> Result<Val, &'static str> {
    if let Some(n) = t.arr {
        if let Base::O(name) = &t.base {
            if !formats.contains_key(name) {
                return Err("decode: unknown format");
            }
        }
        // Every element needs at least one byte.
        if n > c.0.len() {
            return Err("decode: array does not fit");
        }
    }
    match (&t.base, t.arr) {
        (Base::P(p), None) => c.scalar(*p).map(|v| Val::S(*p, v)).ok_or("decode: short"),
        (Base::P(p), Some(n)) => {
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(c.scalar(*p).ok_or("decode: short")?);
            }
            Ok(Val::A(*p, v))
        }
        (Base::O(name), arr) => {
            let f = formats.get(name).ok_or("decode: unknown format")?;
            match arr {
                None => Ok(Val::O(Box::new(instance(f, c, formats, pad, depth + 1, max)?))),
                Some(n) => {
                    let mut v = Vec::new();
                    for _ in 0..n {
                        v.push(instance(f, c, formats, pad, depth + 1, max)?);
                    }
                    Ok(Val::AO(v))
                }
            }
        }
    }
}

pub fn instance(f: &FormatV, c: &mut Cur, formats: &Formats, pad: bool, depth: usize, max: usize) -> Result<Inst, &'static str> {
    if depth > max {
        return Err("decode: nested too deeply");
    }
    // Formats without any bytes can be nested in each other exponentially often: such logs are not explored.
    if STEPS.with(|s| s.replace(s.get() + 1)) > MAX_STEPS {
        return Err("decode: too many nested values");
    }
    let mut fields = vec![];
    let mut ts = None;
    for (name, ty) in &f.fields {
        if name.starts_with("_padding") {
            if let Some(n) = ty.arr {
                if let Some(b) = c.take(n) {
                    if pad {
                        fields.push(FieldV {
                            name: name.clone(),
                            ty: ty.clone(),
                            val: Val::A(Ty::U8, b.iter().map(|x| *x as u64).collect()),
                        });
                    }
                }
            }
            continue;
        }
        let val = value(ty, c, formats, pad, depth, max)?;
        if name == "timestamp" {
            if let Val::S(Ty::U64, v) = val {
                ts = Some(v);
            }
        }
        fields.push(FieldV { name: name.clone(), ty: ty.clone(), val });
    }
    Ok(Inst { name: f.name.clone(), ts, fields, multi: None, def: f.clone() })
}

fn keyed(c: &mut Cur) -> Result<(String, TypeV), &'static str> {
    let n = c.le(1).ok_or("key: short")? as usize;
    let k = c.take(n).ok_or("key: short")?;
    let s = std::str::from_utf8(k).map_err(|_| "key: invalid UTF-8")?;
    let (f, _) = field(&tokens(s)).ok_or("key: not a type and a name")?;
    Ok(f)
}
fn param(c: &mut Cur) -> Result<(String, TypeV, Val), &'static str> {
    let (key, ty) = keyed(c)?;
    match (&ty.base, ty.arr) {
        (Base::P(p @ (Ty::I32 | Ty::F32)), None) => {
            let v = c.scalar(*p).ok_or("param: short")?;
            Ok((key, ty.clone(), Val::S(*p, v)))
        }
        _ => Err("param: wrong type"),
    }
}

#[derive(Clone, Debug)]
struct SubV {
    multi: u8,
    name: String,
}

thread_local! {
    static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
const MAX_STEPS: u64 = 100_000;
/// Decoding `b` creates very many nested values.
pub fn too_big(b: &[u8], max: usize) -> bool {
    run(b, &Cfg { allow: None, ..Cfg::default() }, max);
    STEPS.with(|s| s.get()) > MAX_STEPS
}

/// The whole run over `b`. `max` is the nesting limit.
pub fn run(b: &[u8], cfg: &Cfg, max: usize) -> Run {
    STEPS.with(|s| s.set(0));
    let mut items = vec![];
    if b.len() < 16 || b[..7] != [0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35] {
        items.push(Exp { res: Err("bad header"), start: 0, end: b.len().min(16), ty: 0, phase: 'H', late: false });
        return Run { items, end: End::BadHeader };
    }
    if cfg.header {
        let it = Item::Header { version: b[7], ts: Cur(&b[8..16]).le(8).unwrap() };
        items.push(Exp { res: Ok(it), start: 0, end: 16, ty: 0, phase: 'H', late: false });
    }
    let mut pos = 16usize;
    let mut data_phase = false;
    let mut limit: Option<u64> = None;
    let mut formats: Formats = HashMap::new();
    let mut subs: HashMap<u16, SubV> = HashMap::new();
    let mut multi: HashSet<String> = HashSet::new();
    let mut late_names: HashSet<String> = HashSet::new();
    loop {
        if limit.is_some_and(|l| pos as u64 >= l) {
            return Run { items, end: End::Limit };
        }
        if pos == b.len() {
            return Run { items, end: End::Clean };
        }
        if b.len() - pos < 2 {
            return Run { items, end: End::InSize };
        }
        let size = u16::from_le_bytes([b[pos], b[pos + 1]]) as usize;
        let phase = if data_phase { 'A' } else { 'D' };
        if b.len() - pos < 3 + size {
            let ty = *b.get(pos + 2).unwrap_or(&0);
            items.push(Exp { res: Err("truncated"), start: pos, end: b.len(), ty, phase, late: false });
            return Run { items, end: End::Truncated };
        }
        let ty = b[pos + 2];
        let content = &b[pos + 3..pos + 3 + size];
        let mut c = Cur(content);
        let unhandled = || Ok(Item::Unhandled { ty, bytes: content.to_vec() });
        let res: Result<Item, &'static str> = (|| match (ty, data_phase) {
            (b'I', _) => {
                let (key, t) = keyed(&mut c)?;
                let val = value(&t, &mut c, &formats, cfg.pad, 0, max)?;
                Ok(Item::Info { key, ty: t, val })
            }
            (b'M', _) => {
                let cont = c.le(1).ok_or("minfo: short")? != 0;
                let (key, t) = keyed(&mut c)?;
                let val = value(&t, &mut c, &formats, cfg.pad, 0, max)?;
                Ok(Item::MInfo { cont, key, ty: t, val })
            }
            (b'P', _) => {
                let (key, t, val) = param(&mut c)?;
                Ok(Item::Param { key, ty: t, val })
            }
            (b'Q', _) => {
                let types = c.le(1).ok_or("dparam: short")? as u8;
                let (key, t, val) = param(&mut c)?;
                Ok(Item::DParam { key, types, ty: t, val })
            }
            (b'A', _) => {
                let m = c.le(1).ok_or("sub: short")? as u8;
                let id = c.le(2).ok_or("sub: short")? as u16;
                let name = std::str::from_utf8(c.0).map_err(|_| "sub: invalid UTF-8")?;
                if !formats.contains_key(name) {
                    return Err("sub: unknown format");
                }
                Ok(Item::Sub { multi: m, id, name: name.to_string() })
            }
            (b'B', false) => {
                let compat = c.take(8).ok_or("flags: short")?.to_vec();
                let incompat = c.take(8).ok_or("flags: short")?.to_vec();
                if incompat[1..].iter().any(|&x| x != 0) {
                    return Err("flags: unknown incompatible bits");
                }
                let mut offs = vec![];
                for _ in 0..3 {
                    offs.push(c.le(8).ok_or("flags: short")?);
                }
                Ok(Item::Flags { compat, incompat, offs })
            }
            (b'F', false) => Ok(Item::Format(format_def(content)?)),
            (b'D', true) => {
                let id = c.le(2).ok_or("data: short")? as u16;
                let sub = subs.get(&id).ok_or("data: unknown id")?;
                if cfg.allow.as_ref().is_some_and(|a| !a.contains(&sub.name)) {
                    return Ok(Item::Ignored { ty });
                }
                let f = &formats[&sub.name];
                let mut inst = instance(f, &mut c, &formats, cfg.pad, 0, max)?;
                let ts = inst.ts.ok_or("data: no timestamp")?;
                if multi.contains(&sub.name) {
                    inst.multi = Some(sub.multi);
                }
                inst.fields.retain(|f| {
                    if f.name == "timestamp" {
                        cfg.ts
                    } else if f.name.starts_with("_padding") {
                        cfg.pad
                    } else {
                        true
                    }
                });
                Ok(Item::Data { ts, msg_id: id, data: inst })
            }
            (b'L', true) | (b'C', true) => {
                let level = c.le(1).ok_or("string: short")? as u8;
                if !(b'0'..=b'7').contains(&level) {
                    return Err("string: bad level");
                }
                let tag = if ty == b'C' { Some(c.le(2).ok_or("string: short")? as u16) } else { None };
                let ts = c.le(8).ok_or("string: short")?;
                let msg = std::str::from_utf8(c.0).map_err(|_| "string: invalid UTF-8")?.to_string();
                Ok(Item::Str { tagged: ty == b'C', level, tag, ts, msg })
            }
            (b'O', true) => Ok(Item::Drop(c.le(2).ok_or("dropout: short")? as u16)),
            (b'R', true) => {
                if content.len() < 2 {
                    return Err("remove: short");
                }
                unhandled()
            }
            _ => unhandled(),
        })();
        match &res {
            Ok(Item::Format(f)) => {
                formats.insert(f.name.clone(), f.clone());
            }
            Ok(Item::Sub { multi: m, id, name }) => {
                subs.insert(*id, SubV { multi: *m, name: name.clone() });
                if *m > 0 {
                    multi.insert(name.clone());
                }
                data_phase = true;
            }
            Ok(Item::Flags { incompat, offs, .. }) => {
                if incompat[0] & 1 != 0 {
                    limit = offs.iter().copied().find(|&o| o != 0);
                }
            }
            Ok(Item::Unhandled { ty: b'R', bytes }) if phase == 'A' => {
                subs.remove(&u16::from_le_bytes([bytes[0], bytes[1]]));
            }
            _ => {}
        }
        let late = match (ty, content.len()) {
            (b'A', 3..) => std::str::from_utf8(&content[3..]).is_ok_and(|n| late_names.contains(n)),
            (b'D', 2..) => subs.get(&u16::from_le_bytes([content[0], content[1]])).is_some_and(|s| late_names.contains(&s.name)),
            _ => false,
        };
        if ty == b'F' && phase == 'A' {
            if let Ok(f) = format_def(content) {
                late_names.insert(f.name);
            }
        }
        items.push(Exp { res, start: pos, end: pos + 3 + size, ty, phase, late });
        pos += 3 + size;
    }
}

// ------------------------------------------------------------------ encoding

pub fn type_text(t: &TypeV) -> String {
    let b = match &t.base {
        Base::P(p) => p.name().to_string(),
        Base::O(s) => s.clone(),
    };
    match t.arr {
        None => b,
        Some(n) => format!("{b}[{n}]"),
    }
}
pub fn put(t: Ty, v: u64, out: &mut Vec<u8>) {
    out.extend_from_slice(&v.to_le_bytes()[..t.size()]);
}
pub fn put_val(v: &Val, out: &mut Vec<u8>) {
    match v {
        Val::S(t, x) => put(*t, *x, out),
        Val::A(t, a) => a.iter().for_each(|x| put(*t, *x, out)),
        Val::O(i) => put_inst(i, out),
        Val::AO(a) => a.iter().for_each(|i| put_inst(i, out)),
    }
}
pub fn put_inst(i: &Inst, out: &mut Vec<u8>) {
    i.fields.iter().for_each(|f| put_val(&f.val, out));
}
pub fn format_text(f: &FormatV) -> String {
    let mut s = format!("{}:", f.name);
    for (n, t) in &f.fields {
        s.push_str(&format!("{} {};", type_text(t), n));
    }
    s
}
fn put_key(ty: &TypeV, key: &str, out: &mut Vec<u8>) -> bool {
    let k = format!("{} {}", type_text(ty), key);
    if k.len() > 255 {
        return false;
    }
    out.push(k.len() as u8);
    out.extend_from_slice(k.as_bytes());
    true
}
/// The encoding of an item, or None where a length does not fit its field.
pub fn encode(i: &Item) -> Option<Vec<u8>> {
    let mut c: Vec<u8> = vec![];
    let ty = match i {
        Item::Header { version, ts } => {
            let mut h = vec![0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35, *version];
            h.extend_from_slice(&ts.to_le_bytes());
            return Some(h);
        }
        Item::Flags { compat, incompat, offs } => {
            c.extend_from_slice(compat);
            c.extend_from_slice(incompat);
            offs.iter().for_each(|o| c.extend_from_slice(&o.to_le_bytes()));
            b'B'
        }
        Item::Format(f) => {
            c.extend_from_slice(format_text(f).as_bytes());
            b'F'
        }
        Item::Data { msg_id, data, .. } => {
            c.extend_from_slice(&msg_id.to_le_bytes());
            put_inst(data, &mut c);
            b'D'
        }
        Item::Sub { multi, id, name } => {
            c.push(*multi);
            c.extend_from_slice(&id.to_le_bytes());
            c.extend_from_slice(name.as_bytes());
            b'A'
        }
        Item::Info { key, ty, val } => {
            if !put_key(ty, key, &mut c) {
                return None;
            }
            put_val(val, &mut c);
            b'I'
        }
        Item::MInfo { cont, key, ty, val } => {
            c.push(*cont as u8);
            if !put_key(ty, key, &mut c) {
                return None;
            }
            put_val(val, &mut c);
            b'M'
        }
        Item::Param { key, ty, val } => {
            if !put_key(ty, key, &mut c) {
                return None;
            }
            put_val(val, &mut c);
            b'P'
        }
        Item::DParam { key, types, ty, val } => {
            c.push(*types);
            if !put_key(ty, key, &mut c) {
                return None;
            }
            put_val(val, &mut c);
            b'Q'
        }
        Item::Str { tagged, level, tag, ts, msg } => {
            c.push(*level);
            if let Some(t) = tag {
                c.extend_from_slice(&t.to_le_bytes());
            }
            c.extend_from_slice(&ts.to_le_bytes());
            c.extend_from_slice(msg.as_bytes());
            if *tagged {
                b'C'
            } else {
                b'L'
            }
        }
        Item::Drop(d) => {
            c.extend_from_slice(&d.to_le_bytes());
            b'O'
        }
        Item::Unhandled { ty, bytes } => {
            c.extend_from_slice(bytes);
            *ty
        }
        Item::Ignored { ty } => *ty,
    };
    let n = u16::try_from(c.len()).ok()?;
    let mut out = n.to_le_bytes().to_vec();
    out.push(ty);
    out.extend_from_slice(&c);
    Some(out)
}
