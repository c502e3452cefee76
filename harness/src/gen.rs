//! Structured generator of logs: mostly well-formed, with controlled malformations.
use crate::dict::{number, word};
use crate::refmodel::*;
use crate::rng::Rng;
use crate::view::*;

#[derive(Clone, Debug)]
pub struct Profile {
    /// weights: format, sub, remove, data, info, minfo, param, dparam, string, tagged, dropout, flags, unknown, late definition
    pub w: [usize; 14],
    pub msgs: usize,
    /// percent
    pub malformed: usize,
    pub nested: usize,
    pub arrays: usize,
    pub padding: usize,
    pub odd_ts: usize,
    pub canonical: bool,
    pub n_formats: usize,
    pub few_ids: bool,
    pub spaces: usize,
    pub appended: usize,
    pub zero_multi: usize,
}
pub const BASE: Profile = Profile {
    w: [3, 10, 2, 30, 5, 4, 4, 4, 5, 5, 3, 1, 4, 1],
    msgs: 14,
    malformed: 10,
    nested: 25,
    arrays: 30,
    padding: 20,
    odd_ts: 6,
    canonical: false,
    n_formats: 4,
    few_ids: true,
    spaces: 10,
    appended: 0,
    zero_multi: 60,
};

pub const FIELD_NAMES: [&str; 12] = ["a", "b", "x1", "speed", "_under", "timestamp_sample", "id", "Q_9", "status", "z", "timestam", "padding0"];
pub const FORMAT_NAMES: [&str; 8] = ["alpha", "beta_2", "G", "alpha_x", "delta", "_eps", "zeta", "eta"];
/// Names that a careless comparison confuses with something else.
const ODD_FORMATS: [&str; 15] = ["heartbeat", "uint8_t", "int", "char", "float_", "bool2", "timestamp", "_padding0", "uint8_t_", "Bool", "double_", "0", "9z", "_", "mini"];
const ODD_FIELDS: [&str; 22] = [
    "timestamps", "timestamp_", "Timestamp", "_timestamp", "timestam", "TIMESTAMP", "timestamp0", "_paddin", "__padding0", "_Padding0", "_padding", "_padding_x", "_paddingx", "x_padding0", "padding", "_pad", "uint8_t", "char", "0", "_", "multi_id", "msg_id",
];
/// Sizes around which a narrower counter or a buffer changes its behaviour.
const SIZES: [usize; 20] = [31, 32, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 32767, 32768, 65500];

const ODD_TEXTS: [&str; 34] = [
    "\u{feff}", "\n", "\r\n", "\r", "\t", " ", "  ", "\u{a0}", "\u{85}", "\u{2028}", "\u{200b}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "\u{301}", "\u{80}", "\u{7ff}", "\u{800}", "\u{10000}",
    "\0\0", "\x1b[31m", "\x7f", "\x08", "\"", "'", "\\", "\\n", "%s", "{}", "\u{1f600}", "]: ",
];

/// Other names that share much with `n`.
pub fn relative(r: &mut Rng, n: &str) -> String {
    if r.chance(1, 3) {
        if let Some(w) = word(r) {
            return match r.below(4) {
                0 => format!("{n}{w}"),
                1 => format!("{w}{n}"),
                2 => format!("{n}_{w}"),
                _ => w,
            };
        }
    }
    let mut s = n.to_string();
    match r.below(9) {
        0 => s.push(*r.pick(&['0', '1', '2', '_', 'x', 's'])),
        1 => {
            s.pop();
        }
        2 => s = s.to_uppercase(),
        3 => s = s.to_lowercase(),
        4 => s = format!("_{s}"),
        5 => s = s.trim_matches('_').to_string(),
        6 => s = s.repeat(2),
        7 => {
            s.remove(0);
        }
        _ => {
            let k = r.below(3);
            s = format!("{s}_{k}");
        }
    }
    if s.is_empty() { "q".into() } else { s }
}
pub fn is_name(n: &str) -> bool {
    n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && n.chars().next().is_some_and(|c| !c.is_ascii_digit())
}
fn format_pool(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let new = if r.chance(1, 4) { word(r).filter(|w| is_name(w)) } else { None };
        let x = match r.below(10) {
            _ if new.is_some() => new.unwrap(),
            0..=4 => r.pick(&FORMAT_NAMES).to_string(),
            5 => r.pick(&ODD_FORMATS).to_string(),
            6 => {
                let k = *r.pick(&[1usize, 2, 16, 31, 64, 254, 255, 256, 300]);
                let c = *r.pick(&["n", "N", "_", "7"]);
                c.repeat(k)
            }
            _ => match v.is_empty() {
                true => "vehicle_status".into(),
                false => {
                    let b = r.pick(&v).clone();
                    relative(r, &b)
                }
            },
        };
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Profile,
    pub formats: Formats,
    pub order: Vec<String>,
    pub subs: Vec<(u16, String)>,
    pub msgs: Vec<(u8, Vec<u8>)>,
    pub header: Vec<u8>,
    /// nested values that may still be generated for a message
    fuel: usize,
    /// the names of this log
    pub names: Vec<String>,
    /// definitions that came too late, and subscriptions to them
    late: Formats,
    ghosts: Vec<(u16, String)>,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Profile) -> Self {
        let mut header = vec![0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35];
        header.push(r.byte());
        header.extend(r.bytes(8));
        let names = format_pool(r, p.n_formats.max(1));
        Gen { r, p, formats: Default::default(), order: vec![], subs: vec![], msgs: vec![], header, fuel: 0, names, late: Default::default(), ghosts: vec![] }
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.r.chance(p, 100)
    }
    pub fn push(&mut self, ty: u8, content: Vec<u8>) {
        self.msgs.push((ty, content));
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.header.clone();
        for (t, c) in &self.msgs {
            b.extend_from_slice(&(c.len() as u16).to_le_bytes());
            b.push(*t);
            b.extend_from_slice(c);
        }
        b
    }
    pub fn format_name(&mut self) -> String {
        if !self.p.canonical && self.r.chance(1, 12) {
            let b = self.r.pick(&self.names).clone();
            return relative(self.r, &b);
        }
        self.r.pick(&self.names).clone()
    }
    pub fn field_name(&mut self, i: usize) -> String {
        if self.r.chance(1, 6) {
            if let Some(w) = word(self.r) {
                return w;
            }
        }
        match self.r.below(10) {
            0 | 1 => self.r.pick(&ODD_FIELDS).to_string(),
            2 => self.r.pick(&FIELD_NAMES).to_string(),
            3 => {
                let k = *self.r.pick(&[1usize, 15, 40, 255, 256]);
                "f".repeat(k)
            }
            _ => format!("{}{}", self.r.pick(&FIELD_NAMES), i),
        }
    }
    pub fn array_size(&mut self) -> usize {
        if self.r.chance(1, 8) {
            if let Some(n) = number(self.r).filter(|n| *n < 5000) {
                return n as usize;
            }
        }
        match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => self.r.range(16, 40),
            3 if self.r.chance(1, 6) => *self.r.pick(&SIZES),
            _ => self.r.range(2, 5),
        }
    }
    pub fn typ(&mut self) -> TypeV {
        let nested = self.pct(self.p.nested);
        let arr = if self.pct(self.p.arrays) { Some(self.array_size()) } else { None };
        if nested {
            let name = if !self.order.is_empty() && !self.pct(if self.p.canonical { 0 } else { 5 }) {
                self.r.pick(&self.order).clone()
            } else if self.p.canonical {
                return TypeV { base: Base::P(*self.r.pick(&ALL_TY)), arr };
            } else {
                self.format_name()
            };
            return TypeV { base: Base::O(name), arr: arr.map(|n| n.min(3)) };
        }
        TypeV { base: Base::P(*self.r.pick(&ALL_TY)), arr }
    }
    pub fn random_format(&mut self) -> FormatV {
        let name = if self.p.canonical {
            // No redefinition, so no format can contain itself.
            self.names.iter().cloned().find(|n| !self.formats.contains_key(n)).unwrap_or_else(|| format!("fmt_{}", self.order.len()))
        } else {
            self.format_name()
        };
        let n = match self.r.below(40) {
            0 => *self.r.pick(&[16usize, 33, 64, 130, 260]),
            _ => self.r.range(0, 5),
        };
        let mut fields = vec![];
        let ts_at = if self.pct(self.p.odd_ts) { 99 } else { self.r.below(n + 1) };
        for i in 0..=n {
            if i == ts_at {
                fields.push(("timestamp".to_string(), TypeV { base: Base::P(Ty::U64), arr: None }));
            }
            if i == n {
                break;
            }
            if self.pct(self.p.padding) {
                let ty = TypeV { base: Base::P(Ty::U8), arr: Some(self.r.range(0, 6)) };
                let ty = if self.p.canonical || !self.pct(10) {
                    ty
                } else if self.pct(50) {
                    TypeV { base: ty.base, arr: None }
                } else {
                    TypeV { base: Base::P(*self.r.pick(&ALL_TY)), arr: ty.arr }
                };
                let suffix = self.r.below(3);
                let nm = if self.pct(20) { "_padding".to_string() } else { format!("_padding{suffix}") };
                fields.push((nm, ty));
                continue;
            }
            if self.pct(self.p.odd_ts) && !self.p.canonical {
                // a field of the name timestamp that is not the timestamp
                let ty = self.typ();
                fields.push(("timestamp".to_string(), ty));
                continue;
            }
            let mut ty = self.typ();
            let mut nm = self.field_name(i);
            if self.p.canonical && nm.starts_with("_padding") {
                nm = format!("p{nm}");
            }
            if n > 10 {
                ty.arr = ty.arr.map(|k| k.min(3));
            }
            fields.push((nm, ty));
        }
        FormatV { name, fields }
    }
    fn ws(&mut self) -> String {
        if self.p.canonical || !self.pct(self.p.spaces) {
            return String::new();
        }
        let opts = [" ", "  ", "\t", "\n", "\r\n", " \u{a0}", "\u{2003}", "\u{b}", "\u{3000}"];
        self.r.pick(&opts).to_string()
    }
    /// The text of a format, with optional white space.
    pub fn format_text(&mut self, f: &FormatV) -> String {
        let mut s = self.ws() + &f.name + &self.ws() + ":" + &self.ws();
        for (n, t) in &f.fields {
            s += &self.type_text(t);
            s += " ";
            s += &self.ws();
            s += n;
            s += &self.ws();
            s += ";";
            s += &self.ws();
        }
        s
    }
    fn type_text(&mut self, t: &TypeV) -> String {
        let base = match &t.base {
            Base::P(p) => p.name().to_string(),
            Base::O(s) => s.clone(),
        };
        match t.arr {
            None => base,
            Some(n) => {
                let zeros = if !self.p.canonical && self.pct(3) { "00" } else { "" };
                base + &self.ws() + "[" + &self.ws() + zeros + &n.to_string() + &self.ws() + "]"
            }
        }
    }
    /// A number of n bytes at some edge.
    pub fn edge_bytes(&mut self, n: usize, out: &mut Vec<u8>) {
        let at = out.len();
        out.resize(at + n, 0);
        let b = &mut out[at..];
        match self.r.below(9) {
            0 => {}
            1 => b.fill(0xff),
            2 => {
                b.fill(0xff);
                b[n - 1] = 0x7f;
            }
            3 => b[n - 1] = 0x80,
            4 => b[0] = *self.r.pick(&[1, 2, 10, 13, 32, 48, 127]),
            5 => {
                b.fill(0xff);
                b[0] = 0xfe;
            }
            6 => b[n / 2] = 1,
            7 => b[..n / 2].fill(0xff),
            _ => b[n - 1] = 1,
        }
    }
    /// A number of n bytes.
    fn num(&mut self, n: usize) -> Vec<u8> {
        if self.r.chance(1, 6) {
            if let Some(x) = number(self.r) {
                return x.to_le_bytes().iter().copied().cycle().take(n).collect();
            }
        }
        if self.r.chance(1, 4) {
            let mut v = vec![];
            self.edge_bytes(n, &mut v);
            v
        } else {
            self.r.bytes(n)
        }
    }
    pub fn scalar_bytes(&mut self, t: Ty, out: &mut Vec<u8>) {
        if t == Ty::Bool && (self.p.canonical || self.pct(70)) {
            out.push(self.r.below(2) as u8);
        } else if self.r.chance(1, 6) && t == Ty::F32 {
            // NaNs of every kind, infinities, zeros, subnormals, the extremes
            let v = *self.r.pick(&[0x7fc00000u32, 0xffc00000, 0x7fa00001, 0xff800001, 0x7f800000, 0xff800000, 0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0x3fc00000, 0x4b800001]);
            out.extend(v.to_le_bytes());
        } else if self.r.chance(1, 6) && t == Ty::F64 {
            let v = *self.r.pick(&[
                0x7ff8000000000000u64, 0xfff8000000000000, 0x7ff4000000000001, 0xfff0000000000001, 0x7ff0000000000000, 0xfff0000000000000, 0, 1 << 63, 1, (1 << 63) + 1, 0x000fffffffffffff,
                0x0010000000000000, 0x7fefffffffffffff, 0x3ff8000000000000, 0x3ff0000000000001, 0x36a0000000000000,
            ]);
            out.extend(v.to_le_bytes());
        } else if self.r.chance(1, 5) {
            if let Some(x) = number(self.r).filter(|_| t != Ty::Bool) {
                out.extend(&x.to_le_bytes()[..t.size()]);
                return;
            }
            self.edge_bytes(t.size(), out);
        } else {
            let b = self.r.bytes(t.size());
            out.extend(b);
        }
    }
    pub fn value_bytes(&mut self, t: &TypeV, depth: usize, out: &mut Vec<u8>) {
        let n = t.arr.unwrap_or(1);
        match &t.base {
            Base::P(Ty::Char) if n > 1 && self.r.chance(1, 2) => {
                let mut b = self.text();
                b.resize(n.min(70000), *self.r.pick(&[0, 0, 32, 255]));
                out.extend(b);
            }
            Base::P(p) => {
                for _ in 0..n.min(70000) {
                    self.scalar_bytes(*p, out);
                }
            }
            Base::O(name) => {
                let Some(f) = self.formats.get(name).cloned() else { return };
                for _ in 0..n.min(100) {
                    self.instance_bytes(&f, depth + 1, out);
                }
            }
        }
    }
    pub fn instance_bytes(&mut self, f: &FormatV, depth: usize, out: &mut Vec<u8>) {
        if depth > 70 || out.len() > 70000 || self.fuel == 0 {
            return;
        }
        self.fuel -= 1;
        for (n, t) in &f.fields {
            if n.starts_with("_padding") {
                if let Some(k) = t.arr {
                    let b = self.r.bytes(k.min(70000));
                    out.extend(b);
                }
                continue;
            }
            self.value_bytes(t, depth, out);
        }
    }
    pub fn emit_format(&mut self) {
        let f = self.random_format();
        self.emit_this_format(f);
    }
    pub fn emit_this_format(&mut self, f: FormatV) {
        let text = self.format_text(&f);
        let mut b = text.into_bytes();
        let bad = self.pct(self.p.malformed);
        if bad && self.r.chance(1, 2) {
            self.mutate_text(&mut b);
        }
        if let Ok(g) = format_def(&b) {
            if !self.order.contains(&g.name) {
                self.order.push(g.name.clone());
            }
            self.formats.insert(g.name.clone(), g);
        }
        self.push(b'F', b);
    }
    pub fn mutate_text(&mut self, b: &mut Vec<u8>) {
        for _ in 0..self.r.range(1, 2) {
            let i = self.r.below(b.len() + 1);
            match self.r.below(5) {
                0 if i < b.len() => {
                    b.remove(i);
                }
                1 => {
                    let c = *self.r.pick(b":;[]0 9aZ_-?\n\xff\xc3(,.\x00{");
                    b.insert(i, c);
                }
                2 if i < b.len() => b[i] = *self.r.pick(b":;[] 0x_/\xe9"),
                3 => b.truncate(i),
                _ => {
                    let s: &[u8] = *self.r.pick(&[&b"99999999999999999999"[..], b"[3]", b"[]", b";;", b"::", b"[18446744073709551615]", "é".as_bytes(), b" int8_t q;"]);
                    let tail = b.split_off(i);
                    b.extend_from_slice(s);
                    b.extend(tail);
                }
            }
        }
    }
    fn msg_id(&mut self) -> u16 {
        if self.p.few_ids {
            *self.r.pick(&[0u16, 1, 2, 3, 256, 257, 511, 32767, 32768, 65534, 65535])
        } else {
            self.r.u64() as u16
        }
    }
    pub fn emit_sub(&mut self) {
        let name = if self.order.is_empty() || self.pct(if self.p.canonical { 0 } else { self.p.malformed / 2 }) {
            if self.p.canonical {
                return;
            }
            self.format_name()
        } else if !self.p.canonical && !self.late.is_empty() && self.pct(25) {
            let l: Vec<String> = self.late.keys().cloned().collect();
            self.r.pick(&l).clone()
        } else {
            self.r.pick(&self.order).clone()
        };
        let id = self.msg_id();
        let multi = if self.pct(self.p.zero_multi) { 0 } else { *self.r.pick(&[1u8, 2, 3, 127, 128, 254, 255]) };
        self.emit_sub_of(multi, id, &name);
    }
    pub fn emit_sub_of(&mut self, multi: u8, id: u16, name: &str) {
        let mut c = vec![multi];
        c.extend(id.to_le_bytes());
        c.extend(name.as_bytes());
        if self.formats.contains_key(name) {
            self.subs.retain(|s| s.0 != id);
            self.subs.push((id, name.to_string()));
        } else if self.late.contains_key(name) {
            self.ghosts.push((id, name.to_string()));
        }
        self.finish(b'A', c);
    }
    /// Appends the message, perhaps malformed.
    pub fn finish(&mut self, ty: u8, mut c: Vec<u8>) {
        if !self.p.canonical && self.pct(self.p.malformed) {
            match self.r.below(6) {
                0 => {
                    let n = self.r.below(c.len() + 1);
                    c.truncate(n);
                }
                1 => {
                    c.pop();
                }
                2 => {
                    let k = self.r.range(1, 9);
                    let e = self.r.bytes(k);
                    c.extend(e);
                }
                3 if !c.is_empty() => {
                    let i = self.r.below(c.len());
                    c[i] = self.r.byte();
                }
                4 if !c.is_empty() => {
                    // the front carries lengths, ids and levels
                    let i = self.r.below(c.len().min(4));
                    c[i] = self.r.u64() as u8;
                }
                _ => {
                    let n = self.r.below(20);
                    c = self.r.bytes(n);
                }
            }
        }
        c.truncate(65535);
        self.push(ty, c);
    }
    pub fn emit_data(&mut self) {
        let unknown = self.subs.is_empty() || self.pct(if self.p.canonical { 0 } else { 4 });
        if unknown {
            if self.p.canonical {
                return;
            }
            let id = self.msg_id();
            let mut c = id.to_le_bytes().to_vec();
            let k = self.r.below(12);
            c.extend(self.r.bytes(k));
            return self.finish(b'D', c);
        }
        let ghost = !self.ghosts.is_empty() && self.pct(15);
        let (id, name) = if ghost { self.r.pick(&self.ghosts).clone() } else { self.r.pick(&self.subs).clone() };
        // Sometimes data is laid out like a definition that came too late.
        let f = match self.late.get(&name) {
            Some(f) if ghost || self.r.chance(1, 3) => f.clone(),
            _ => self.formats[&name].clone(),
        };
        let mut c = id.to_le_bytes().to_vec();
        self.fuel = 5000;
        self.instance_bytes(&f, 0, &mut c);
        if c.len() > 65535 {
            return;
        }
        // Trailing padding is usually omitted.
        if let Some((n, t)) = f.fields.last() {
            if n.starts_with("_padding") && self.pct(50) {
                if let Some(k) = t.arr {
                    let l = c.len().saturating_sub(k);
                    c.truncate(l.max(2));
                    if !self.p.canonical && self.pct(20) && k > 1 {
                        c.push(7);
                    }
                }
            }
        }
        self.finish(b'D', c);
    }
    pub fn key(&mut self, ty: &TypeV) -> Vec<u8> {
        let name = if self.r.chance(1, 4) { self.r.pick(&ODD_FIELDS).to_string() } else { self.r.pick(&FIELD_NAMES).to_string() };
        let name = if self.r.chance(1, 12) {
            let n = self.r.range(100, 255);
            "k".repeat(n)
        } else {
            name
        };
        let mut k = self.ws().into_bytes();
        k.extend(self.type_text(ty).into_bytes());
        k.push(b' ');
        k.extend(self.ws().into_bytes());
        k.extend(name.into_bytes());
        k.extend(self.ws().into_bytes());
        if !self.p.canonical {
            if self.pct(self.p.malformed) && self.r.chance(1, 2) {
                self.mutate_text(&mut k);
            }
            if self.pct(3) {
                k.extend_from_slice(b" more; text[2]");
            }
        }
        k.truncate(255);
        k
    }
    pub fn emit_keyed(&mut self, ty: u8) {
        let mut c = vec![];
        if ty == b'M' {
            c.push(if self.p.canonical { self.r.below(2) as u8 } else { *self.r.pick(&[0u8, 1, 2, 255]) });
        }
        if ty == b'Q' {
            c.push(self.r.u64() as u8);
        }
        let param = ty == b'P' || ty == b'Q';
        let t = if param && (self.p.canonical || self.pct(80)) {
            TypeV { base: Base::P(*self.r.pick(&[Ty::I32, Ty::F32])), arr: None }
        } else if self.pct(30) {
            let k = if self.r.chance(1, 15) { *self.r.pick(&SIZES) } else { self.r.range(0, 30) };
            TypeV { base: Base::P(Ty::Char), arr: Some(k) }
        } else {
            self.typ()
        };
        let k = self.key(&t);
        c.push(k.len() as u8);
        c.extend(k);
        self.value_bytes(&t, 0, &mut c);
        if c.len() > 65535 {
            return;
        }
        self.finish(ty, c);
    }
    pub fn text(&mut self) -> Vec<u8> {
        let n = if self.r.chance(1, 25) { *self.r.pick(&SIZES) + self.r.below(3) } else { self.r.below(20) };
        let mut b: Vec<u8> = vec![];
        for _ in 0..n {
            match self.r.below(10) {
                0 => b.extend("é€𝄞".as_bytes()),
                1 => b.push(0),
                _ => b.push(self.r.range(32, 126) as u8),
            }
        }
        // What careless code takes for something else, at either end or within.
        if self.r.chance(1, 3) {
            let new = if self.r.chance(1, 2) { word(self.r) } else { None };
            let odd = new.as_deref().unwrap_or(*self.r.pick(&ODD_TEXTS)).to_string();
            let at = *self.r.pick(&[0, 0, n, n]);
            let mut at = if at == 0 { 0 } else { b.len() };
            if self.r.chance(1, 4) {
                at = self.r.below(b.len() + 1);
                while at < b.len() && b[at] & 0xC0 == 0x80 {
                    at += 1;
                }
            }
            let tail = b.split_off(at);
            b.extend(odd.as_bytes());
            b.extend(tail);
        }
        if !self.p.canonical && self.pct(self.p.malformed) && self.r.chance(1, 2) {
            let i = self.r.below(b.len() + 1);
            b.insert(i, *self.r.pick(&[0xffu8, 0xc3, 0x80, 0xed]));
        }
        b
    }
    pub fn emit_string(&mut self, tagged: bool) {
        let mut c = vec![b'0' + self.r.below(8) as u8];
        if !self.p.canonical && self.pct(self.p.malformed) {
            c[0] = *self.r.pick(&[b'8', b'/', 0, 7, 0xff, b'A', b'9', 3]);
        }
        if tagged {
            c.extend(self.num(2));
        }
        c.extend(self.num(8));
        c.extend(self.text());
        self.finish(if tagged { b'C' } else { b'L' }, c);
    }
    pub fn emit_flags(&mut self) {
        let mut c = self.r.bytes(8);
        let mut inc = vec![0u8; 8];
        inc[0] = (self.r.u64() as u8) & 0xFE;
        if !self.p.canonical && self.pct(15) {
            let i = self.r.below(8);
            inc[i] |= 1 << self.r.below(8);
            inc[0] &= 0xFE;
        }
        c.extend(inc);
        for _ in 0..3 {
            let v = *self.r.pick(&[0u64, 1, 16, 100, 1 << 31, 1 << 32, (1 << 32) + 20, 1 << 63, u64::MAX]);
            c.extend(v.to_le_bytes());
        }
        self.finish(b'B', c);
    }
    pub fn emit_unknown(&mut self) {
        let ty = loop {
            let t = self.r.u64() as u8;
            if !b"FDIMPQARSOLCB".contains(&t) || self.r.chance(1, 10) {
                break t;
            }
        };
        let n = if self.r.chance(1, 12) { *self.r.pick(&SIZES) } else { self.r.below(12) };
        let mut c = self.r.bytes(n);
        if ty == b'B' || ty == b'F' || ty == b'A' {
            c = vec![];
        }
        self.push(ty, c);
    }
    pub fn emit(&mut self, action: usize) {
        // The same message again, or one like it.
        if action != 0 && action != 11 && action < 13 && self.r.chance(1, 20) {
            if let Some((ty, c)) = self.msgs.last().cloned() {
                if ty != b'B' {
                    self.push(ty, c);
                    return;
                }
            }
        }
        match action {
            0 => self.emit_format(),
            1 => self.emit_sub(),
            2 => {
                let id = self.msg_id();
                let mut c = id.to_le_bytes().to_vec();
                if !self.p.canonical && self.pct(10) {
                    c.extend([1, 2, 3]);
                }
                let l0 = self.msgs.len();
                self.finish(b'R', c);
                // keep the generator's own idea of live subscriptions: some data must refer to removed ids
                if self.r.chance(1, 2) || self.p.canonical {
                    if let Some((_, c)) = self.msgs.get(l0) {
                        if c.len() >= 2 {
                            let id = u16::from_le_bytes([c[0], c[1]]);
                            self.subs.retain(|s| s.0 != id);
                        }
                    }
                }
            }
            3 => self.emit_data(),
            4 => self.emit_keyed(b'I'),
            5 => self.emit_keyed(b'M'),
            6 => self.emit_keyed(b'P'),
            7 => self.emit_keyed(b'Q'),
            8 => self.emit_string(false),
            9 => self.emit_string(true),
            10 => {
                let c = self.num(2);
                self.finish(b'O', c)
            }
            11 => self.emit_flags(),
            12 => self.emit_unknown(),
            _ => {
                // a definition after the first subscription
                let mut f = self.random_format();
                if self.r.chance(1, 3) && !self.order.is_empty() {
                    f.name = self.r.pick(&self.order).clone();
                }
                let t = format_text(&f).into_bytes();
                if !self.subs.is_empty() {
                    self.late.insert(f.name.clone(), f);
                    self.push(b'F', t);
                } else {
                    self.emit_this_format(f);
                }
            }
        }
    }
    /// A whole log.
    pub fn log(&mut self) {
        if self.pct(50) {
            self.emit_flags();
        }
        let n_def = self.r.range(1, self.p.n_formats.max(1));
        for _ in 0..n_def {
            self.emit_format();
            if self.r.chance(1, 4) {
                let mut w = self.p.w;
                w[0] = 0;
                w[1] = 0;
                w[13] = 0;
                let a = self.r.weighted(&w);
                if self.p.canonical && matches!(a, 2 | 3) {
                    continue;
                }
                self.emit(a);
            }
        }
        if !self.r.chance(1, 12) {
            self.emit_sub();
        }
        let n = self.r.range(1, self.p.msgs);
        for _ in 0..n {
            let mut w = self.p.w;
            if !self.subs.is_empty() {
                w[0] = 0;
            }
            let a = self.r.weighted(&w);
            self.emit(a);
        }
        if self.pct(self.p.appended) {
            self.append_data();
        }
    }
    /// Puts a flag-bits message with the appended-data flag first, its offsets around some message.
    pub fn append_data(&mut self) {
        let mut ends = vec![16u64 + 43];
        for (_, c) in &self.msgs {
            ends.push(ends.last().unwrap() + 3 + c.len() as u64);
        }
        let e = *self.r.pick(&ends);
        let off = match self.r.below(7) {
            0 => e.saturating_sub(1),
            1 => e + 1,
            2 => e + 2,
            3 => e + (1 << *self.r.pick(&[8, 16, 31, 32, 33, 48, 63])),
            _ => e,
        };
        let mut offs = [0u64; 3];
        let k = self.r.below(4);
        if k < 3 {
            offs[k] = off;
            for o in offs.iter_mut().skip(k + 1) {
                *o = *self.r.pick(&[0, 1, e, u64::MAX]);
            }
        }
        let mut c = self.r.bytes(8);
        let flag = !self.r.chance(1, 4);
        c.push(flag as u8 | if self.r.chance(1, 4) { 0xF0 } else { 0 });
        c.extend([0u8; 7]);
        for o in offs {
            c.extend(o.to_le_bytes());
        }
        self.msgs.insert(0, (b'B', c));
    }
}
