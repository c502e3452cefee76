//! Oracles that call the library directly: encoding, the cursor, character helpers, derived code.
use crate::drive::*;
use crate::gen::*;
use crate::props::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::view::*;
use yule_log::encode::Encode;
use yule_log::message_buf::MessageBuf;
use yule_log::model::msg::UlogMessage;
use yule_log::model::{def, inst, msg, CChar, CCharSlice};

pub fn viol(what: impl Into<String>, bytes: &[u8], expected: impl std::fmt::Debug, actual: impl std::fmt::Debug) -> Option<Viol> {
    Some(Viol { what: what.into(), bytes: bytes.to_vec(), cfg: Cfg::default(), expected: format!("{expected:?}"), actual: format!("{actual:?}") })
}
pub fn out(v: Option<Viol>, h: u64, sample: String) -> Out {
    Out { viol: v, nontrivial: true, hash: h, sample }
}

pub fn case(prop: &str, seed: u64, idx: u64) -> Out {
    let r = &mut Rng::new(seed, idx.wrapping_mul(31).wrapping_add(hash(prop.as_bytes())));
    match prop {
        "C06" => encoding(r),
        "C16" => cursor(r, idx),
        "C20" => chars(r, idx),
        "C21" => scalars(r, idx),
        #[cfg(feature = "clients")]
        _ => crate::clients::derived(prop, r),
        #[cfg(not(feature = "clients"))]
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------ C06

fn base_type(b: &Base) -> def::BaseType {
    use def::BaseType::*;
    match b {
        Base::O(s) => OTHER(s.clone()),
        Base::P(t) => match t {
            Ty::U8 => UINT8, Ty::U16 => UINT16, Ty::U32 => UINT32, Ty::U64 => UINT64, Ty::I8 => INT8, Ty::I16 => INT16,
            Ty::I32 => INT32, Ty::I64 => INT64, Ty::F32 => FLOAT, Ty::F64 => DOUBLE, Ty::Bool => BOOL, Ty::Char => CHAR,
        },
    }
}
fn type_expr(t: &TypeV) -> def::TypeExpr {
    def::TypeExpr { base_type: base_type(&t.base), array_size: t.arr }
}
fn def_format(f: &FormatV) -> def::Format {
    def::Format {
        name: f.name.as_str().into(),
        fields: f.fields.iter().map(|(n, t)| def::Field { name: n.as_str().into(), r#type: type_expr(t) }).collect(),
        padding: 0,
    }
}
pub fn field_value(v: &Val) -> inst::FieldValue {
    use inst::FieldValue::*;
    match v {
        Val::S(t, x) => {
            let x = *x;
            match t {
                Ty::U8 => ScalarU8(x as u8), Ty::U16 => ScalarU16(x as u16), Ty::U32 => ScalarU32(x as u32), Ty::U64 => ScalarU64(x),
                Ty::I8 => ScalarI8(x as i8), Ty::I16 => ScalarI16(x as i16), Ty::I32 => ScalarI32(x as i32), Ty::I64 => ScalarI64(x as i64),
                Ty::F32 => ScalarF32(f32::from_bits(x as u32)), Ty::F64 => ScalarF64(f64::from_bits(x)),
                Ty::Bool => ScalarBool(x != 0), Ty::Char => ScalarChar(CChar(x as u8)),
            }
        }
        Val::A(t, a) => {
            let it = a.iter().copied();
            match t {
                Ty::U8 => ArrayU8(it.map(|x| x as u8).collect()), Ty::U16 => ArrayU16(it.map(|x| x as u16).collect()),
                Ty::U32 => ArrayU32(it.map(|x| x as u32).collect()), Ty::U64 => ArrayU64(it.collect()),
                Ty::I8 => ArrayI8(it.map(|x| x as i8).collect()), Ty::I16 => ArrayI16(it.map(|x| x as i16).collect()),
                Ty::I32 => ArrayI32(it.map(|x| x as i32).collect()), Ty::I64 => ArrayI64(it.map(|x| x as i64).collect()),
                Ty::F32 => ArrayF32(it.map(|x| f32::from_bits(x as u32)).collect()), Ty::F64 => ArrayF64(it.map(f64::from_bits).collect()),
                Ty::Bool => ArrayBool(it.map(|x| x != 0).collect()), Ty::Char => ArrayChar(it.map(|x| CChar(x as u8)).collect()),
            }
        }
        Val::O(i) => ScalarOther(inst_format(i).into()),
        Val::AO(a) => ArrayOther(a.iter().map(inst_format).collect()),
    }
}
pub fn inst_format(i: &Inst) -> inst::Format {
    inst::Format {
        timestamp: i.ts,
        name: i.name.as_str().into(),
        fields: i.fields.iter().map(|f| inst::Field { name: f.name.as_str().into(), r#type: type_expr(&f.ty), value: field_value(&f.val) }).collect(),
        multi_id_index: i.multi,
        def_format: def_format(&i.def).into(),
    }
}
pub fn rand_scalar(r: &mut Rng, t: Ty) -> u64 {
    let mut v = [0u8; 8];
    for b in v.iter_mut().take(t.size()) {
        *b = r.byte();
    }
    if t == Ty::Bool {
        v[0] &= 1;
    }
    u64::from_le_bytes(v)
}
/// A value and its type. `big` allows arrays over the message size.
pub fn rand_val(r: &mut Rng, depth: usize, big: bool) -> (TypeV, Val) {
    let t = *r.pick(&ALL_TY);
    let n = if big {
        *r.pick(&[8000usize, 8191, 8192, 16383, 32767, 65530, 65535, 65536, 70000, 131072])
    } else if r.chance(1, 30) {
        *r.pick(&[31usize, 32, 33, 100, 127, 128, 255, 256, 257, 1000])
    } else {
        r.below(6)
    };
    match r.below(if depth < 2 { 6 } else { 4 }) {
        0 | 1 if !big => (TypeV { base: Base::P(t), arr: None }, Val::S(t, rand_scalar(r, t))),
        4 => {
            let i = rand_inst(r, depth + 1, big);
            (TypeV { base: Base::O(i.name.clone()), arr: None }, Val::O(Box::new(i)))
        }
        5 => {
            let i = rand_inst(r, depth + 1, false);
            let k = r.below(4);
            let name = i.name.clone();
            // Elements alike, or each with values, an instance and a definition of its own.
            let a = if r.chance(1, 2) { vec![i; k] } else { (0..k).map(|_| rand_inst(r, depth + 1, false)).collect() };
            (TypeV { base: Base::O(name), arr: Some(k) }, Val::AO(a))
        }
        _ => {
            let a = if n > 100 { vec![rand_scalar(r, t); n] } else { (0..n).map(|_| rand_scalar(r, t)).collect() };
            (TypeV { base: Base::P(t), arr: Some(n) }, Val::A(t, a))
        }
    }
}
pub fn rand_inst(r: &mut Rng, depth: usize, big: bool) -> Inst {
    let n = r.range(if big { 1 } else { 0 }, 4);
    let fields: Vec<FieldV> = (0..n)
        .map(|i| {
            let (ty, val) = rand_val(r, depth, big && i == 0);
            FieldV { name: r.pick(&FIELD_NAMES).to_string(), ty, val }
        })
        .collect();
    let name = r.pick(&FORMAT_NAMES).to_string();
    let mut def = FormatV { name: name.clone(), fields: fields.iter().map(|f| (f.name.clone(), f.ty.clone())).collect() };
    if r.chance(1, 4) {
        // A value need not have been made of its definition.
        def.name = r.pick(&FORMAT_NAMES).to_string();
        def.fields.reverse();
        def.fields.truncate(2);
    }
    let ts = if r.chance(1, 3) { None } else { Some(rand_scalar(r, Ty::U64)) };
    let multi = if r.chance(1, 2) { None } else { Some(*r.pick(&[0u8, 1, 2, 127, 255])) };
    Inst { name, ts, multi, def, fields }
}
pub fn rand_key(r: &mut Rng, ty: &TypeV) -> String {
    let l = type_text(ty).len() + 1;
    // The interesting lengths are those around the limit.
    let n = match r.below(4) {
        0 => (255 - l.min(255)).saturating_sub(r.below(3)),
        1 => 256 - l.min(256) + r.below(3),
        2 => 512 + r.below(10) - l.min(256),
        _ => r.range(1, 20),
    };
    if r.chance(1, 10) {
        "é".repeat(n / 2)
    } else {
        of_len(r, n, "k")
    }
}
/// A text of n bytes, mostly `fill`, with a few others at its start, inside, or at its end.
fn of_len(r: &mut Rng, n: usize, fill: &str) -> String {
    const ODD: [&str; 16] = ["\0", " ", "\n", "\t", "\r", ":", ";", "[", "]", "é", "\u{FFFD}", "€", "😀", "\u{7f}", "\u{feff}", "_"];
    let mut s = fill.repeat(n);
    for _ in 0..if r.chance(1, 2) { r.range(1, 3) } else { 0 } {
        let o = *r.pick(&ODD);
        let k = r.range(1, 3);
        let l = o.len() * k;
        if l > s.len() {
            continue;
        }
        let mut at = match r.below(3) { 0 => 0, 1 => s.len() - l, _ => r.below(s.len() - l + 1) };
        while !s.is_char_boundary(at) || !s.is_char_boundary(at + l) {
            at += 1;
            if at + l > s.len() {
                break;
            }
        }
        if at + l <= s.len() {
            s.replace_range(at..at + l, &o.repeat(k));
        }
    }
    s
}
pub fn rand_text(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 5, 9, 20, 255, 256, 65519, 65520, 65524, 65525, 65526, 65532, 65533, 65535, 65536, 131072, 200000]);
    of_len(r, n, "t")
}
fn levels() -> [msg::LogLevel; 8] {
    use msg::LogLevel::*;
    [Emerg, Alert, Crit, Err, Warning, Notice, Info, Debug]
}
pub fn rand_message(r: &mut Rng) -> UlogMessage {
    let big = r.chance(1, 6);
    match r.below(13) {
        0 => UlogMessage::Header(msg::FileHeader { version: r.byte(), timestamp: rand_scalar(r, Ty::U64) }),
        1 => UlogMessage::FlagBits(msg::FlagBits {
            compat_flags: std::array::from_fn(|_| r.byte()),
            incompat_flags: std::array::from_fn(|_| r.byte()),
            appended_data_offsets: std::array::from_fn(|_| rand_scalar(r, Ty::U64)),
        }),
        2 => {
            let n = if big { 4000 } else { r.below(6) };
            let fields = (0..n)
                .map(|i| (format!("f{i}"), TypeV { base: if r.chance(1, 3) { Base::O("other".into()) } else { Base::P(*r.pick(&ALL_TY)) }, arr: if r.chance(1, 2) { Some(*r.pick(&[0, 1, 255, 65536, usize::MAX])) } else { None } }))
                .collect();
            let name = if r.chance(1, 10) { rand_text(r) } else { r.pick(&FORMAT_NAMES).to_string() };
            UlogMessage::FormatDefinition(def_format(&FormatV { name, fields }))
        }
        3 | 4 => {
            let i = rand_inst(r, 0, big);
            UlogMessage::LoggedData(msg::LoggedData { timestamp: 1, msg_id: rand_scalar(r, Ty::U16) as u16, data: inst_format(&i) })
        }
        5 => UlogMessage::AddSubscription(msg::Subscription { multi_id: r.byte(), msg_id: rand_scalar(r, Ty::U16) as u16, message_name: rand_text(r) }),
        6 => {
            let (ty, v) = rand_val(r, 0, big);
            UlogMessage::Info(msg::Info { key: rand_key(r, &ty), r#type: type_expr(&ty), value: field_value(&v) })
        }
        7 => {
            let (ty, v) = rand_val(r, 0, big);
            UlogMessage::MultiInfo(msg::MultiInfo { is_continued: r.chance(1, 2), key: rand_key(r, &ty), r#type: type_expr(&ty), value: field_value(&v) })
        }
        k @ (8 | 9) => {
            let t = *r.pick(&[Ty::I32, Ty::F32]);
            let ty = TypeV { base: Base::P(t), arr: None };
            let x = rand_scalar(r, t) as u32;
            let value = if t == Ty::I32 { inst::ParameterValue::INT32(x as i32) } else { inst::ParameterValue::FLOAT(f32::from_bits(x)) };
            let key = rand_key(r, &ty);
            if k == 8 {
                UlogMessage::Parameter(msg::Parameter { key, r#type: type_expr(&ty), value })
            } else {
                UlogMessage::DefaultParameter(msg::DefaultParameter { key, default_types: r.byte(), r#type: type_expr(&ty), value })
            }
        }
        10 => UlogMessage::LoggedString(msg::LoggedString { level: *r.pick(&levels()), tag: None, timestamp: rand_scalar(r, Ty::U64), msg: rand_text(r) }),
        11 => UlogMessage::TaggedLoggedString(msg::LoggedString { level: *r.pick(&levels()), tag: Some(rand_scalar(r, Ty::U16) as u16), timestamp: rand_scalar(r, Ty::U64), msg: rand_text(r) }),
        _ => {
            if r.chance(1, 4) {
                UlogMessage::Ignored { msg_type: r.u64() as u8 }
            } else {
                let n = *r.pick(&[0usize, 1, 3, 255, 256, 65535, 65536, 65537, 131072]);
                UlogMessage::Unhandled { msg_type: r.u64() as u8, message_contents: vec![r.byte(); n] }
            }
        }
    }
}
/// Writes a few bytes at a time, or fails after `left` bytes.
struct Short {
    out: Vec<u8>,
    step: usize,
    left: usize,
}
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.step).min(self.left);
        self.out.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Framing faults of `enc`, the encoding of `item`.
fn framing(item: &Item, ok: bool, enc: &[u8]) -> Option<(String, String, String)> {
    let want = encode(item);
    let head = |b: &[u8]| format!("{} bytes {}", b.len(), hex(&b[..b.len().min(40)]));
    match (&want, ok) {
        (None, true) => Some(("a length that does not fit is not an error".into(), "an error".into(), head(enc))),
        (_, false) => None,
        (Some(w), true) => {
            if matches!(item, Item::Header { .. }) {
                return if enc != w { Some(("file header".into(), head(w), head(enc))) } else { None };
            }
            if enc.len() < 3 {
                return Some(("no size and type".into(), head(w), head(enc)));
            }
            let size = u16::from_le_bytes([enc[0], enc[1]]) as usize;
            if size != enc.len() - 3 {
                return Some(("the size field is not the number of content bytes".into(), format!("{}", enc.len() - 3), format!("{size}")));
            }
            if enc[2] != w[2] {
                return Some(("type byte".into(), format!("{}", w[2]), format!("{}", enc[2])));
            }
            let at = match item {
                Item::Info { .. } | Item::Param { .. } => 3,
                Item::MInfo { .. } | Item::DParam { .. } => 4,
                _ => return None,
            };
            if enc.get(at) != w.get(at) {
                return Some(("key length".into(), head(w), head(enc)));
            }
            None
        }
    }
}

fn encoding(r: &mut Rng) -> Out {
    let m = rand_message(r);
    let item = item_v(&m);
    let mut pre = vec![0xAA; r.below(3)];
    let p = pre.len();
    let mut v = None;
    let h;
    match guarded(|| m.encode(&mut pre).is_ok()) {
        Err(c) => {
            v = viol(format!("encoding {} crashes: {c}", item.kind()), &[], "bytes or an error", c);
            h = 0;
        }
        Ok(ok) => {
            h = hash(&pre);
            if ok && pre[..p].iter().any(|x| *x != 0xAA) {
                v = viol("earlier output changed", &pre, "unchanged", "changed");
            }
            if let Some((w, e, a)) = framing(&item, ok, &pre[p..]) {
                v = viol(format!("{}: {w}", item.kind()), &pre[p..], e, a);
            }
            let want = pre[p..].to_vec();
            // A writer that takes few bytes at a time gets the same, one that fails makes encoding fail.
            if v.is_none() && ok {
                if want.len() < 3000 || r.chance(1, 20) {
                    let mut s = Short { out: vec![], step: if want.len() < 3000 { r.range(1, 5) } else { r.range(1, 900) }, left: usize::MAX };
                    let ok2 = m.encode(&mut s).is_ok();
                    if !ok2 || s.out != want {
                        v = viol(format!("{}: a slow writer gets other bytes", item.kind()), &want, hex(&want), hex(&s.out));
                    }
                }
                if !want.is_empty() {
                    let left = if r.chance(1, 2) { r.below(want.len()) } else { want.len() - r.range(1, want.len().min(5)) };
                    let mut s = Short { out: vec![], step: if want.len() < 3000 { 7 } else { 5000 }, left };
                    if m.encode(&mut s).is_ok() {
                        v = viol(format!("{}: a writer that fails after {left} bytes", item.kind()), &want, "an error", "success");
                    }
                }
            }
        }
    }
    let s = format!("{m:?}");
    out(v, h, s.chars().take(300).collect())
}

// ------------------------------------------------------------------ C16

fn cursor(r: &mut Rng, idx: u64) -> Out {
    // The first cases enumerate: length 0..=9, then one operation of each kind at each position.
    let (buf, ops): (Vec<u8>, Vec<(usize, usize)>) = if idx < 10 * 16 * 10 {
        let n = (idx % 10) as usize;
        let op = (idx / 10 % 16) as usize;
        let at = (idx / 160) as usize;
        ((0..n as u8).map(|x| x.wrapping_mul(83) ^ 0x85).collect(), vec![(12, at), (op, at), (0, 0), (13, 0)])
    } else {
        let n = r.below(40);
        let b = r.bytes(n);
        let k = r.range(1, 14);
        (b, (0..k).map(|_| (r.below(16), *r.pick(&[0usize, 0, 1, 2, 3, 5, 8, 9, 40, 41, 1 << 31, 1 << 32, 1 << 63, usize::MAX - 1, usize::MAX, usize::MAX - 7]))).collect())
    };
    let mut log = String::new();
    let mut v = None;
    let mut model = Cur(&buf);
    let res = guarded(|| {
        let mut m = if ops.len() % 2 == 0 { MessageBuf::new(buf.clone()) } else { MessageBuf::from_vec(buf.clone()) };
        for &(op, k) in &ops {
            let before = model.0;
            let (got, want): (Option<Vec<u8>>, Option<Vec<u8>>) = match op {
                0 => (m.take_u8().ok().map(|x| x.to_le_bytes().to_vec()), model.take(1).map(|b| b.to_vec())),
                1 => (m.take_i8().ok().map(|x| x.to_le_bytes().to_vec()), model.take(1).map(|b| b.to_vec())),
                2 => (m.take_u16().ok().map(|x| x.to_le_bytes().to_vec()), model.take(2).map(|b| b.to_vec())),
                3 => (m.take_i16().ok().map(|x| x.to_le_bytes().to_vec()), model.take(2).map(|b| b.to_vec())),
                4 => (m.take_u32().ok().map(|x| x.to_le_bytes().to_vec()), model.take(4).map(|b| b.to_vec())),
                5 => (m.take_i32().ok().map(|x| x.to_le_bytes().to_vec()), model.take(4).map(|b| b.to_vec())),
                6 => (m.take_u64().ok().map(|x| x.to_le_bytes().to_vec()), model.take(8).map(|b| b.to_vec())),
                7 => (m.take_i64().ok().map(|x| x.to_le_bytes().to_vec()), model.take(8).map(|b| b.to_vec())),
                8 => (m.take_f32().ok().map(|x| x.to_bits().to_le_bytes().to_vec()), model.take(4).map(|b| b.to_vec())),
                9 => (m.take_f64().ok().map(|x| x.to_bits().to_le_bytes().to_vec()), model.take(8).map(|b| b.to_vec())),
                10 => (m.take_bool().ok().map(|x| vec![x as u8]), model.take(1).map(|b| vec![(b[0] != 0) as u8])),
                11 => (m.advance(k).ok().map(|x| x.to_vec()), model.take(k).map(|b| b.to_vec())),
                12 => (m.skip(k).ok().map(|_| vec![]), model.take(k).map(|_| vec![])),
                13 => (Some(m.len().to_le_bytes().to_vec()), Some(model.0.len().to_le_bytes().to_vec())),
                14 => (Some(vec![m.is_empty() as u8]), Some(vec![model.0.is_empty() as u8])),
                _ => (None, None),
            };
            log.push_str(&format!("{op}({k}) "));
            if got != want || m.len() != model.0.len() || m.is_empty() != model.0.is_empty() {
                return Some((format!("operation {op}({k}) with {} bytes left: {log}", before.len()), format!("{want:?} leaving {}", model.0.len()), format!("{got:?} leaving {}", m.len())));
            }
        }
        let rest = m.into_remaining_bytes();
        if rest != model.0 {
            return Some((format!("remaining bytes after {log}"), hex(model.0), hex(&rest)));
        }
        None
    });
    match res {
        Err(c) => v = viol(format!("crash in {log}"), &buf, "a value or an error", c),
        Ok(Some((w, e, a))) => v = viol(w, &buf, e, a),
        Ok(None) => {}
    }
    let h = hash(&buf) ^ hash(log.as_bytes());
    out(v, h, format!("{} {log}", hex(&buf)))
}

// ------------------------------------------------------------------ C20

fn chars(r: &mut Rng, idx: u64) -> Out {
    let mut v = None;
    let b: Vec<u8> = if idx < 256 {
        vec![idx as u8]
    } else {
        let n = if r.chance(1, 20) { *r.pick(&[31usize, 64, 127, 128, 255, 256, 257, 1000, 4096]) } else { r.below(12) };
        match r.below(4) {
            0 => {
                let z = r.below(n + 1);
                let mut b = of_len(r, n - z, "a").into_bytes();
                b.resize(n, 0);
                b
            }
            1 => (0..n).map(|_| *r.pick(&[0u8, 0, 9, 10, 13, 32, 65, 0x7f, 0x80, 0xc3, 0xa9, 0xef, 0xbb, 0xbf, 0xff])).collect(),
            _ => (0..n).map(|_| if r.chance(1, 2) { 0 } else { r.byte() }).collect(),
        }
    };
    let res = guarded(|| {
        let c: Vec<CChar> = b.iter().map(|x| CChar::from(*x)).collect();
        for (x, y) in b.iter().zip(&c) {
            if u8::from(*y) != *x || y.as_u8() != *x || y.0 != *x {
                return Some(("byte of a character", format!("{x}"), format!("{y:?}")));
            }
            let want = if *x < 128 { *x as char } else { '\u{FFFD}' };
            if y.as_char() != want {
                return Some(("character", format!("{want:?}"), format!("{:?}", y.as_char())));
            }
        }
        let sl: &[CChar] = &c;
        if c.as_bytes() != &b[..] || sl.as_bytes() != &b[..] {
            return Some(("as_bytes", hex(&b), hex(c.as_bytes())));
        }
        let n = b.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
        let want: Vec<CChar> = c[..n].to_vec();
        if c.trim_end_nul() != &want[..] || sl.trim_end_nul() != &want[..] {
            return Some(("trim_end_nul", format!("{want:?}"), format!("{:?}", sl.trim_end_nul())));
        }
        let lossy = String::from_utf8_lossy(&b).to_string();
        if sl.to_string_lossy() != lossy || c.to_string_lossy() != lossy {
            return Some(("to_string_lossy", lossy, sl.to_string_lossy()));
        }
        let trimmed = lossy.trim_end_matches('\0').to_string();
        if sl.to_string_lossy_trimmed() != trimmed || c.to_string_lossy_trimmed() != trimmed {
            return Some(("to_string_lossy_trimmed", trimmed, sl.to_string_lossy_trimmed()));
        }
        None
    });
    match res {
        Err(c) => v = viol("crash", &b, "a value", c),
        Ok(Some((w, e, a))) => v = viol(w, &b, e, a),
        Ok(None) => {}
    }
    out(v, hash(&b), hex(&b))
}

// ------------------------------------------------------------------ C21

fn scalars(r: &mut Rng, idx: u64) -> Out {
    let (_, val) = if idx < 48 {
        let t = ALL_TY[(idx % 12) as usize];
        let n = [0usize, 1, 2, 7][(idx / 12) as usize];
        (0, Val::A(t, (0..n).map(|_| rand_scalar(r, t)).collect()))
    } else {
        let x = rand_val(r, 0, false);
        (0, x.1)
    };
    let f = field_value(&val);
    let want: Option<Vec<Val>> = match &val {
        Val::A(t, a) => Some(a.iter().map(|x| Val::S(*t, *x)).collect()),
        Val::AO(a) => Some(a.iter().map(|i| Val::O(Box::new(i.clone()))).collect()),
        _ => None,
    };
    let s = format!("{val:?}");
    let v = match guarded(|| f.to_scalars().map(|v| v.iter().map(val_v).collect::<Vec<_>>())) {
        Err(c) => viol("crash", s.as_bytes(), &want, c),
        Ok(got) if got != want => viol("to_scalars", s.as_bytes(), &want, &got),
        Ok(_) => None,
    };
    out(v, hash(s.as_bytes()), s.chars().take(200).collect())
}

