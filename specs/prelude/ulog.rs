//! What a ULog file means: the specification that the code is proved against.
//! Written from the ULog format description and the property statements, not from the code.
use vstd::prelude::*;
use crate::prelude::*;
verus! {

// ---------------------------------------------------------------- definitions
pub enum SBase { UINT8, UINT16, UINT32, UINT64, INT8, INT16, INT32, INT64, FLOAT, DOUBLE, BOOL, CHAR, OTHER(Seq<char>) }
pub struct SType { pub base: SBase, pub arr: Option<usize> }
pub struct SField { pub name: Seq<char>, pub ty: SType }
pub struct SDef { pub name: Seq<char>, pub fields: Seq<SField>, pub padding: usize }

/// Bytes that a value of a primitive type occupies.
pub open spec fn width(b: SBase) -> nat {
    match b {
        SBase::UINT8 | SBase::INT8 | SBase::BOOL | SBase::CHAR => 1,
        SBase::UINT16 | SBase::INT16 => 2,
        SBase::UINT32 | SBase::INT32 | SBase::FLOAT => 4,
        SBase::UINT64 | SBase::INT64 | SBase::DOUBLE => 8,
        SBase::OTHER(_) => 0,
    }
}
pub open spec fn is_prim(b: SBase) -> bool { !(b is OTHER) }

// ---------------------------------------------------------------- values
// A primitive value is represented by its little-endian bytes; a boolean by the byte 0 or 1.
pub enum SVal {
    Prim(SBase, Seq<u8>),
    Nested(Box<SFmt>),
    PrimArr(SBase, Seq<Seq<u8>>),
    NestedArr(Seq<SFmt>),
}
pub struct SInst { pub name: Seq<char>, pub ty: SType, pub val: SVal }
pub struct SFmt { pub ts: Option<u64>, pub name: Seq<char>, pub fields: Seq<SInst>, pub multi: Option<u8>, pub def: SDef }

/// The value that stored bytes stand for: any non-zero byte is true.
pub open spec fn norm(b: SBase, x: Seq<u8>) -> Seq<u8> {
    if b is BOOL { if x[0] == 0 { seq![0u8] } else { seq![1u8] } } else { x }
}

// ---------------------------------------------------------------- decoding
pub open spec fn ts_name() -> Seq<char> { "timestamp"@ }
pub open spec fn pad_prefix() -> Seq<char> { "_padding"@ }
pub open spec fn is_padding(name: Seq<char>) -> bool { pad_prefix().is_prefix_of(name) }

/// One primitive value at the start of b.
pub open spec fn dec_prim(base: SBase, b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if b.len() >= width(base) { Some((norm(base, b.take(width(base) as int)), b.skip(width(base) as int))) } else { None }
}
/// n primitive values in a row.
pub open spec fn dec_prims(base: SBase, n: nat, b: Seq<u8>) -> Option<(Seq<Seq<u8>>, Seq<u8>)> decreases n {
    if n == 0 { Some((seq![], b)) } else {
        match dec_prims(base, (n - 1) as nat, b) {
            None => None,
            Some((acc, rest)) => match dec_prim(base, rest) {
                None => None,
                Some((v, rest2)) => Some((acc.push(v), rest2)),
            },
        }
    }
}
pub broadcast proof fn dec_prims_none(base: SBase, m: nat, n: nat, b: Seq<u8>)
    requires m <= n, #[trigger] dec_prims(base, m, b) is None
    ensures #[trigger] dec_prims(base, n, b) is None
    decreases n
{
    if m < n { dec_prims_none(base, m, (n - 1) as nat, b); }
}
/// A value of a type. k: how many more levels formats may be nested.
pub open spec fn dec_val(fs: Map<Seq<char>, SDef>, ty: SType, b: Seq<u8>, k: int, pad: bool) -> Option<(SVal, Seq<u8>)>
    decreases (if k < 0 { 0int } else { k + 1 }), 2int, 0int
{
    match ty.arr {
        None => match ty.base {
            SBase::OTHER(n) => if !fs.contains_key(n) || k <= 0 { None } else {
                match dec_fmt(fs, fs[n], b, k - 1, pad) { None => None, Some((f, rest)) => Some((SVal::Nested(Box::new(f)), rest)) }
            },
            base => match dec_prim(base, b) { None => None, Some((v, rest)) => Some((SVal::Prim(base, v), rest)) },
        },
        // an array has at most as many elements as bytes remain
        Some(n) => if n > b.len() { None } else {
            match ty.base {
                SBase::OTHER(name) => if !fs.contains_key(name) { None } else {
                    match dec_fmts(fs, fs[name], n as nat, b, k, pad) { None => None, Some((l, rest)) => Some((SVal::NestedArr(l), rest)) }
                },
                base => match dec_prims(base, n as nat, b) { None => None, Some((l, rest)) => Some((SVal::PrimArr(base, l), rest)) },
            }
        },
    }
}
/// n values of a nested format in a row.
pub open spec fn dec_fmts(fs: Map<Seq<char>, SDef>, d: SDef, n: nat, b: Seq<u8>, k: int, pad: bool) -> Option<(Seq<SFmt>, Seq<u8>)>
    decreases (if k < 0 { 0int } else { k + 1 }), 1int, n
{
    if n == 0 { Some((seq![], b)) } else {
        match dec_fmts(fs, d, (n - 1) as nat, b, k, pad) {
            None => None,
            Some((acc, rest)) => if k <= 0 { None } else { match dec_fmt(fs, d, rest, k - 1, pad) {
                None => None,
                Some((f, rest2)) => Some((acc.push(f), rest2)),
            } },
        }
    }
}
pub open spec fn dec_fmt(fs: Map<Seq<char>, SDef>, d: SDef, b: Seq<u8>, k: int, pad: bool) -> Option<(SFmt, Seq<u8>)>
    decreases (if k < 0 { 0int } else { k + 1 }), 4int, 0int
{
    if k < 0 { None } else {
        match dec_fields(fs, d.fields, d.fields.len(), b, k, pad) {
            None => None,
            Some((fields, ts, rest)) => Some((SFmt { ts, name: d.name, fields, multi: None, def: d }, rest)),
        }
    }
}
/// Padding: an array of bytes; it is not there if the message ends before its end.
pub open spec fn dec_pad(f: SField, b: Seq<u8>, pad: bool) -> (Option<SInst>, Seq<u8>) {
    match f.ty.arr {
        Some(n) if n <= b.len() => (
            if pad { Some(SInst { name: f.name, ty: f.ty, val: SVal::PrimArr(SBase::UINT8, Seq::new(n as nat, |i: int| seq![b[i]])) }) } else { None },
            b.skip(n as int)),
        _ => (None, b),
    }
}
/// The first n fields; the second component is the timestamp among them.
pub open spec fn dec_fields(fs: Map<Seq<char>, SDef>, fl: Seq<SField>, n: nat, b: Seq<u8>, k: int, pad: bool) -> Option<(Seq<SInst>, Option<u64>, Seq<u8>)>
    decreases (if k < 0 { 0int } else { k + 1 }), 3int, n
{
    if n == 0 || n > fl.len() { Some((seq![], None, b)) } else {
        match dec_fields(fs, fl, (n - 1) as nat, b, k, pad) {
            None => None,
            Some((acc, ts, rest)) => {
                let f = fl[n - 1];
                if is_padding(f.name) {
                    let (o, rest2) = dec_pad(f, rest, pad);
                    match o { Some(i) => Some((acc.push(i), ts, rest2)), None => Some((acc, ts, rest2)) }
                } else {
                    match dec_val(fs, f.ty, rest, k, pad) {
                        None => None,
                        Some((v, rest2)) => Some((acc.push(SInst { name: f.name, ty: f.ty, val: v }), field_ts(f.name, v, ts), rest2)),
                    }
                }
            },
        }
    }
}
pub open spec fn field_ts(name: Seq<char>, v: SVal, ts: Option<u64>) -> Option<u64> {
    match v {
        SVal::Prim(SBase::UINT64, b) => if name == ts_name() { Some(un(b) as u64) } else { ts },
        _ => ts,
    }
}
} // verus!
verus! {
pub struct SSub { pub multi_id: u8, pub msg_id: u16, pub name: Seq<char> }
/// The Rust types that hold primitive values, and the bytes they stand for.
pub trait XPrim: Sized {
    spec fn base() -> SBase;
    spec fn pb(self) -> Seq<u8>;
}
impl XPrim for u8 { open spec fn base() -> SBase { SBase::UINT8 } open spec fn pb(self) -> Seq<u8> { seq![self] } }
impl XPrim for u16 { open spec fn base() -> SBase { SBase::UINT16 } open spec fn pb(self) -> Seq<u8> { le(2, self as nat) } }
impl XPrim for u32 { open spec fn base() -> SBase { SBase::UINT32 } open spec fn pb(self) -> Seq<u8> { le(4, self as nat) } }
impl XPrim for u64 { open spec fn base() -> SBase { SBase::UINT64 } open spec fn pb(self) -> Seq<u8> { le(8, self as nat) } }
impl XPrim for i8 { open spec fn base() -> SBase { SBase::INT8 } open spec fn pb(self) -> Seq<u8> { le(1, i8n(self)) } }
impl XPrim for i16 { open spec fn base() -> SBase { SBase::INT16 } open spec fn pb(self) -> Seq<u8> { le(2, i16n(self)) } }
impl XPrim for i32 { open spec fn base() -> SBase { SBase::INT32 } open spec fn pb(self) -> Seq<u8> { le(4, i32n(self)) } }
impl XPrim for i64 { open spec fn base() -> SBase { SBase::INT64 } open spec fn pb(self) -> Seq<u8> { le(8, i64n(self)) } }
impl XPrim for f32 { open spec fn base() -> SBase { SBase::FLOAT } open spec fn pb(self) -> Seq<u8> { le(4, f32n(self) as nat) } }
impl XPrim for f64 { open spec fn base() -> SBase { SBase::DOUBLE } open spec fn pb(self) -> Seq<u8> { le(8, f64n(self) as nat) } }
impl XPrim for bool { open spec fn base() -> SBase { SBase::BOOL } open spec fn pb(self) -> Seq<u8> { if self { seq![1u8] } else { seq![0u8] } } }
pub open spec fn pbs<T: XPrim>(s: Seq<T>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].pb()) }

// ---------------------------------------------------------------- file header, levels, flags
pub open spec fn magic() -> Seq<u8> { seq![0x55u8, 0x4cu8, 0x6fu8, 0x67u8, 0x01u8, 0x12u8, 0x35u8] }
/// The 16 bytes of a file header.
pub open spec fn enc_header(version: u8, timestamp: u64) -> Seq<u8> { magic() + seq![version] + le(8, timestamp as nat) }
pub open spec fn level_ok(b: u8) -> bool { 0x30 <= b <= 0x37 }

// ---------------------------------------------------------------- messages
pub enum SMsg {
    Header { version: u8, timestamp: u64 },
    FlagBits { compat: Seq<u8>, incompat: Seq<u8>, offsets: Seq<u64> },
    Format(SDef),
    Data { timestamp: u64, msg_id: u16, data: SFmt },
    Sub(SSub),
    Info { key: Seq<char>, ty: SType, val: SVal },
    MultiInfo { cont: bool, key: Seq<char>, ty: SType, val: SVal },
    Param { key: Seq<char>, ty: SType, val: SVal },
    DefParam { bits: u8, key: Seq<char>, ty: SType, val: SVal },
    Log { level: u8, tag: Option<u16>, timestamp: u64, text: Seq<char> },
    Tagged { level: u8, tag: Option<u16>, timestamp: u64, text: Seq<char> },
    Dropout(u16),
    Unhandled { code: u8, contents: Seq<u8> },
    Ignored { code: u8 },
}
/// The type byte of each kind of message.
pub open spec fn code_of(m: SMsg) -> u8 {
    match m {
        SMsg::Header { .. } => 0,
        SMsg::FlagBits { .. } => 0x42, SMsg::Format(_) => 0x46, SMsg::Data { .. } => 0x44, SMsg::Sub(_) => 0x41,
        SMsg::Info { .. } => 0x49, SMsg::MultiInfo { .. } => 0x4d, SMsg::Param { .. } => 0x50, SMsg::DefParam { .. } => 0x51,
        SMsg::Log { .. } => 0x4c, SMsg::Tagged { .. } => 0x43, SMsg::Dropout(_) => 0x4f,
        SMsg::Unhandled { code, .. } => code, SMsg::Ignored { code } => code,
    }
}

// ---------------------------------------------------------------- encoding
pub open spec fn base_str(b: SBase) -> Seq<char> {
    match b {
        SBase::UINT8 => "uint8_t"@, SBase::UINT16 => "uint16_t"@, SBase::UINT32 => "uint32_t"@, SBase::UINT64 => "uint64_t"@,
        SBase::INT8 => "int8_t"@, SBase::INT16 => "int16_t"@, SBase::INT32 => "int32_t"@, SBase::INT64 => "int64_t"@,
        SBase::FLOAT => "float"@, SBase::DOUBLE => "double"@, SBase::BOOL => "bool"@, SBase::CHAR => "char"@,
        SBase::OTHER(s) => s,
    }
}
pub open spec fn type_str(t: SType) -> Seq<char> {
    match t.arr { None => base_str(t.base), Some(n) => base_str(t.base) + "["@ + dec(n as nat) + "]"@ }
}
pub open spec fn enc_type(t: SType) -> Seq<u8> {
    match t.arr {
        None => utf8(base_str(t.base)),
        Some(n) => utf8(base_str(t.base)) + seq![0x5bu8] + utf8(dec(n as nat)) + seq![0x5du8],
    }
}
pub open spec fn enc_dfield(f: SField) -> Seq<u8> { enc_type(f.ty) + seq![0x20u8] + utf8(f.name) }
pub open spec fn enc_dfields(l: Seq<SField>, n: nat) -> Seq<u8> decreases n {
    if n == 0 || n > l.len() { seq![] } else { enc_dfields(l, (n - 1) as nat) + enc_dfield(l[n - 1]) + seq![0x3bu8] }
}
pub open spec fn enc_def(d: SDef) -> Seq<u8> { utf8(d.name) + seq![0x3au8] + enc_dfields(d.fields, d.fields.len()) }
pub open spec fn flat(l: Seq<Seq<u8>>, n: nat) -> Seq<u8> decreases n {
    if n == 0 || n > l.len() { seq![] } else { flat(l, (n - 1) as nat) + l[n - 1] }
}
pub proof fn flat_bytes(l: Seq<Seq<u8>>, b: Seq<u8>, n: nat)
    requires l.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] l[i] == seq![b[i]], n <= b.len()
    ensures flat(l, n) == b.take(n as int)
    decreases n
{
    if n > 0 { flat_bytes(l, b, (n - 1) as nat); }
    assert(flat(l, n) =~= b.take(n as int));
}
pub open spec fn enc_insts(l: Seq<SInst>, n: nat) -> Seq<u8> decreases l, n {
    if n == 0 || n > l.len() { seq![] } else { enc_insts(l, (n - 1) as nat) + enc_val(l[n - 1].val) }
}
pub open spec fn enc_fmt(f: SFmt) -> Seq<u8> decreases f, 0nat { enc_insts(f.fields, f.fields.len()) }
pub open spec fn enc_fmts(l: Seq<SFmt>, n: nat) -> Seq<u8> decreases l, n {
    if n == 0 || n > l.len() { seq![] } else { enc_fmts(l, (n - 1) as nat) + enc_fmt(l[n - 1]) }
}
pub proof fn enc_fmts_step(l: Seq<SFmt>, n: nat)
    requires n < l.len()
    ensures enc_fmts(l, n + 1) == enc_fmts(l, n) + enc_insts(l[n as int].fields, l[n as int].fields.len())
{ assert(enc_fmt(l[n as int]) == enc_insts(l[n as int].fields, l[n as int].fields.len())); }
pub open spec fn enc_val(v: SVal) -> Seq<u8> decreases v, 0nat {
    match v {
        SVal::Prim(_, b) => b,
        SVal::PrimArr(_, l) => flat(l, l.len()),
        SVal::Nested(f) => enc_fmt(*f),
        SVal::NestedArr(l) => enc_fmts(l, l.len()),
    }
}
pub open spec fn enc_key(ty: SType, key: Seq<char>) -> Seq<u8> { enc_type(ty) + seq![0x20u8] + utf8(key) }
pub open spec fn enc_lkey(ty: SType, key: Seq<char>) -> Seq<u8> { seq![enc_key(ty, key).len() as u8] + enc_key(ty, key) }
pub open spec fn key_fits(ty: SType, key: Seq<char>) -> bool { enc_key(ty, key).len() <= 255 }
pub open spec fn enc_u64s(l: Seq<u64>, n: nat) -> Seq<u8> decreases n {
    if n == 0 || n > l.len() { seq![] } else { enc_u64s(l, (n - 1) as nat) + le(8, l[n - 1] as nat) }
}
pub open spec fn enc_log(level: u8, tag: Option<u16>, timestamp: u64, text: Seq<char>) -> Seq<u8> {
    seq![level] + (match tag { Some(t) => le(2, t as nat), None => seq![] }) + le(8, timestamp as nat) + utf8(text)
}
/// The content bytes of a message.
pub open spec fn content(m: SMsg) -> Seq<u8> {
    match m {
        SMsg::Header { .. } => seq![],
        SMsg::FlagBits { compat, incompat, offsets } => compat + incompat + enc_u64s(offsets, offsets.len()),
        SMsg::Format(d) => enc_def(d),
        SMsg::Data { timestamp, msg_id, data } => le(2, msg_id as nat) + enc_fmt(data),
        SMsg::Sub(s) => enc_sub(s),
        SMsg::Info { key, ty, val } => enc_lkey(ty, key) + enc_val(val),
        SMsg::MultiInfo { cont, key, ty, val } => seq![if cont { 1u8 } else { 0u8 }] + enc_lkey(ty, key) + enc_val(val),
        SMsg::Param { key, ty, val } => enc_lkey(ty, key) + enc_val(val),
        SMsg::DefParam { bits, key, ty, val } => seq![bits] + enc_lkey(ty, key) + enc_val(val),
        SMsg::Log { level, tag, timestamp, text } => enc_log(level, tag, timestamp, text),
        SMsg::Tagged { level, tag, timestamp, text } => enc_log(level, tag, timestamp, text),
        SMsg::Dropout(d) => le(2, d as nat),
        SMsg::Unhandled { contents, .. } => contents,
        SMsg::Ignored { .. } => seq![],
    }
}
pub open spec fn enc_sub(s: SSub) -> Seq<u8> { seq![s.multi_id] + le(2, s.msg_id as nat) + utf8(s.name) }
/// Every length fits the field that stores it.
pub open spec fn lengths_fit(m: SMsg) -> bool {
    match m {
        SMsg::Info { key, ty, .. } => key_fits(ty, key),
        SMsg::MultiInfo { key, ty, .. } => key_fits(ty, key),
        SMsg::Param { key, ty, .. } => key_fits(ty, key),
        SMsg::DefParam { key, ty, .. } => key_fits(ty, key),
        _ => true,
    }
}
pub open spec fn msg_fits(m: SMsg) -> bool { m is Header || (lengths_fit(m) && content(m).len() <= 65535) }
/// A message as it is stored in a file.
pub open spec fn frame(m: SMsg) -> Seq<u8> {
    match m {
        SMsg::Header { version, timestamp } => enc_header(version, timestamp),
        _ => le(2, content(m).len()) + seq![code_of(m)] + content(m),
    }
}
} // verus!
verus! {
// ---------------------------------------------------------------- the text of format definitions and key strings
pub enum STok { Id(Seq<char>), Num(usize), Colon, Semi, LB, RB, Unk(char) }
pub enum SKind { Identifier, Number, Colon, Semicolon, LBrace, RBrace, Whitespace, Unknown }
/// One match of the tokenizer's regular expression.
pub struct SCap { pub kind: SKind, pub text: Seq<char> }
pub open spec fn is_alpha(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_' }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn is_alnum(c: char) -> bool { is_alpha(c) || is_digit(c) }
/// Unicode White_Space
pub open spec fn is_ws(c: char) -> bool {
    '\u{9}' <= c <= '\u{d}' || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || '\u{2000}' <= c <= '\u{200a}'
        || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
/// The length of the longest prefix whose characters satisfy p.
pub open spec fn run(s: Seq<char>, p: spec_fn(char) -> bool) -> nat decreases s.len() {
    if s.len() == 0 || !p(s[0]) { 0 } else { 1 + run(s.skip(1), p) }
}
pub proof fn run_len(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures run(s, p) <= s.len(), s.len() > 0 && p(s[0]) ==> run(s, p) > 0, forall|i: int| 0 <= i < run(s, p) ==> p(#[trigger] s[i])
    decreases s.len()
{
    if s.len() > 0 && p(s[0]) {
        run_len(s.skip(1), p);
        assert forall|i: int| 0 <= i < run(s, p) implies p(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
/// The kind and the length of the match at the start of s.
pub open spec fn cap1(s: Seq<char>) -> (SKind, nat) {
    let c = s[0];
    if is_alpha(c) { (SKind::Identifier, run(s, |c: char| is_alnum(c))) }
    else if is_digit(c) { (SKind::Number, run(s, |c: char| is_digit(c))) }
    else if c == ':' { (SKind::Colon, 1) } else if c == ';' { (SKind::Semicolon, 1) }
    else if c == '[' { (SKind::LBrace, 1) } else if c == ']' { (SKind::RBrace, 1) }
    else if is_ws(c) { (SKind::Whitespace, run(s, |c: char| is_ws(c))) }
    else { (SKind::Unknown, 1) }
}
pub open spec fn re_caps(s: Seq<char>) -> Seq<SCap> decreases s.len() {
    if s.len() == 0 { seq![] } else {
        let (k, n) = cap1(s);
        if n == 0 || n > s.len() { seq![] } else { seq![SCap { kind: k, text: s.take(n as int) }] + re_caps(s.skip(n as int)) }
    }
}
pub open spec fn cap_name(k: SKind) -> Seq<char> {
    match k {
        SKind::Identifier => "identifier"@, SKind::Number => "number"@, SKind::Colon => "colon"@, SKind::Semicolon => "semicolon"@,
        SKind::LBrace => "lbrace"@, SKind::RBrace => "rbrace"@, SKind::Whitespace => "whitespace"@, SKind::Unknown => "unknown"@,
    }
}
pub proof fn caps_names()
    ensures forall|a: SKind, b: SKind| #[trigger] cap_name(a) == #[trigger] cap_name(b) ==> a == b,
        cap_name(SKind::Identifier) == "identifier"@, cap_name(SKind::Number) == "number"@, cap_name(SKind::Colon) == "colon"@, cap_name(SKind::Semicolon) == "semicolon"@, cap_name(SKind::LBrace) == "lbrace"@, cap_name(SKind::RBrace) == "rbrace"@, cap_name(SKind::Whitespace) == "whitespace"@, cap_name(SKind::Unknown) == "unknown"@,
{
    reveal_strlit("identifier"); reveal_strlit("number"); reveal_strlit("colon"); reveal_strlit("semicolon");
    reveal_strlit("lbrace"); reveal_strlit("rbrace"); reveal_strlit("whitespace"); reveal_strlit("unknown");
    assert forall|a: SKind, b: SKind| #[trigger] cap_name(a) == #[trigger] cap_name(b) implies a == b by {
        assert(cap_name(a).len() == cap_name(b).len());
        assert(cap_name(a)[0] == cap_name(b)[0]);
        assert(cap_name(a)[1] == cap_name(b)[1]);
    }
}
/// Digits are a number; a non-empty text matches.
pub proof fn caps_text(s: Seq<char>, i: int)
    requires 0 <= i < re_caps(s).len()
    ensures re_caps(s)[i].text.len() > 0,
        re_caps(s)[i].kind is Number ==> forall|j: int| 0 <= j < re_caps(s)[i].text.len() ==> is_digit(#[trigger] re_caps(s)[i].text[j])
    decreases s.len()
{
    let (k, n) = cap1(s);
    if i > 0 { caps_text(s.skip(n as int), i - 1); assert(re_caps(s)[i] == re_caps(s.skip(n as int))[i - 1]); }
    else { run_len(s, |c: char| is_digit(c)); }
}
/// The number that digits stand for.
pub open spec fn num(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { 10 * num(s.drop_last()) + (s.last() as nat - 48) as nat }
}
pub open spec fn tok_of(c: SCap) -> STok {
    match c.kind {
        SKind::Identifier => STok::Id(c.text),
        // a number that is not an array size is not a token of the grammar
        SKind::Number => if num(c.text) <= usize::MAX { STok::Num(num(c.text) as usize) } else { STok::Unk('0') },
        SKind::Colon => STok::Colon, SKind::Semicolon => STok::Semi, SKind::LBrace => STok::LB, SKind::RBrace => STok::RB,
        _ => STok::Unk(c.text[0]),
    }
}
/// The tokens of the first n matches: white space separates, and is otherwise nothing.
pub open spec fn cap_toks(l: Seq<SCap>, n: nat) -> Seq<STok> decreases n {
    if n == 0 || n > l.len() { seq![] } else if l[n - 1].kind is Whitespace { cap_toks(l, (n - 1) as nat) } else { cap_toks(l, (n - 1) as nat).push(tok_of(l[n - 1])) }
}
pub open spec fn toks(s: Seq<char>) -> Seq<STok> { cap_toks(re_caps(s), re_caps(s).len()) }

pub open spec fn base_of(s: Seq<char>) -> SBase {
    if s == "int8_t"@ { SBase::INT8 } else if s == "int16_t"@ { SBase::INT16 } else if s == "int32_t"@ { SBase::INT32 } else if s == "int64_t"@ { SBase::INT64 }
    else if s == "uint8_t"@ { SBase::UINT8 } else if s == "uint16_t"@ { SBase::UINT16 } else if s == "uint32_t"@ { SBase::UINT32 } else if s == "uint64_t"@ { SBase::UINT64 }
    else if s == "float"@ { SBase::FLOAT } else if s == "double"@ { SBase::DOUBLE } else if s == "bool"@ { SBase::BOOL } else if s == "char"@ { SBase::CHAR }
    else { SBase::OTHER(s) }
}
pub proof fn prim_strs() ensures true {
    reveal_strlit("int8_t"); reveal_strlit("int16_t"); reveal_strlit("int32_t"); reveal_strlit("int64_t");
    reveal_strlit("uint8_t"); reveal_strlit("uint16_t"); reveal_strlit("uint32_t"); reveal_strlit("uint64_t");
    reveal_strlit("float"); reveal_strlit("double"); reveal_strlit("bool"); reveal_strlit("char");
}
/// One field: a type, optionally with an array size, and a name. Also what follows it.
pub open spec fn p_field(t: Seq<STok>) -> Option<(SField, Seq<STok>)> {
    if t.len() < 1 || !(t[0] is Id) { None } else {
        let base = base_of(t[0]->Id_0);
        let t1 = t.skip(1);
        if t1.len() >= 1 && t1[0] is LB {
            if t1.len() < 4 || !(t1[1] is Num) || !(t1[2] is RB) || !(t1[3] is Id) { None }
            else { Some((SField { name: t1[3]->Id_0, ty: SType { base, arr: Some(t1[1]->Num_0) } }, t1.skip(4))) }
        } else if t1.len() >= 1 && t1[0] is Id { Some((SField { name: t1[0]->Id_0, ty: SType { base, arr: None } }, t1.skip(1))) }
        else { None }
    }
}
pub proof fn p_field_len(t: Seq<STok>) ensures p_field(t) is Some ==> p_field(t)->Some_0.1.len() < t.len() {}
pub broadcast proof fn fields_push(a: Seq<SField>, f: SField, b: Seq<SField>) ensures #[trigger] (a.push(f) + b) == a + (seq![f] + b) { assert(a.push(f) + b =~= a + (seq![f] + b)); }
/// Fields, each followed by a semicolon.
pub open spec fn p_fields(t: Seq<STok>) -> Option<Seq<SField>> decreases t.len() {
    if t.len() == 0 { Some(seq![]) } else {
        match p_field(t) {
            None => None,
            Some((f, rest)) => if rest.len() == 0 || !(rest[0] is Semi) || rest.len() > t.len() { None } else {
                match p_fields(rest.skip(1)) { None => None, Some(l) => Some(seq![f] + l) }
            },
        }
    }
}
pub open spec fn p_toks(t: Seq<STok>) -> Option<SDef> {
    if t.len() < 2 || !(t[0] is Id) || !(t[1] is Colon) { None } else {
        match p_fields(t.skip(2)) { None => None, Some(l) => Some(SDef { name: t[0]->Id_0, fields: l, padding: 0 }) }
    }
}
/// A format definition.
pub open spec fn p_format(b: Seq<u8>) -> Option<SDef> { if utf8_ok(b) { p_toks(toks(chars_of(b))) } else { None } }
} // verus!
verus! {
// ---------------------------------------------------------------- messages, from bytes
pub open spec fn le_u16(b: Seq<u8>) -> u16 { un(b.take(2)) as u16 }
pub open spec fn le_u64(b: Seq<u8>) -> u64 { un(b.take(8)) as u64 }
/// A subscription to a known format.
pub open spec fn dec_sub(fs: Map<Seq<char>, SDef>, b: Seq<u8>) -> Option<SSub> {
    if b.len() >= 3 && utf8_ok(b.skip(3)) && fs.contains_key(chars_of(b.skip(3))) {
        Some(SSub { multi_id: b[0], msg_id: le_u16(b.skip(1)), name: chars_of(b.skip(3)) })
    } else { None }
}
/// Of the incompatible bits only those of the first byte are known.
pub open spec fn no_unknown_bits(incompat: Seq<u8>) -> bool { forall|i: int| 1 <= i < 8 ==> #[trigger] incompat[i] == 0 }
pub open spec fn dec_flags(b: Seq<u8>) -> Option<SMsg> {
    if b.len() >= 40 && no_unknown_bits(b.skip(8).take(8)) {
        Some(SMsg::FlagBits { compat: b.take(8), incompat: b.skip(8).take(8), offsets: seq![le_u64(b.skip(16)), le_u64(b.skip(24)), le_u64(b.skip(32))] })
    } else { None }
}
/// The offset of the appended data.
pub open spec fn first_nonzero(o: Seq<u64>) -> Option<usize> decreases o.len() {
    if o.len() == 0 { None } else if o[0] != 0 { Some(o[0] as usize) } else { first_nonzero(o.skip(1)) }
}
pub open spec fn appended(incompat: Seq<u8>) -> bool { incompat[0] % 2 == 1 }
/// The limit that a flag-bits message sets.
pub open spec fn new_limit(m: SMsg, old: Option<usize>) -> Option<usize> {
    match m {
        SMsg::FlagBits { incompat, offsets, .. } => if appended(incompat) { first_nonzero(offsets) } else { old },
        _ => old,
    }
}
/// A key string with its length in front: a type and a name. Also what follows it.
pub open spec fn dec_key(b: Seq<u8>) -> Option<(SField, Seq<u8>)> {
    if b.len() < 1 || b.len() < 1 + b[0] { None } else {
        let raw = b.skip(1).take(b[0] as int);
        if !utf8_ok(raw) { None } else {
            match p_field(toks(chars_of(raw))) { None => None, Some((f, _)) => Some((f, b.skip(1 + b[0]))) }
        }
    }
}
pub open spec fn dec_info(fs: Map<Seq<char>, SDef>, b: Seq<u8>, k: int, pad: bool) -> Option<SMsg> {
    match dec_key(b) {
        None => None,
        Some((f, rest)) => match dec_val(fs, f.ty, rest, k, pad) { None => None, Some((val, _)) => Some(SMsg::Info { key: f.name, ty: f.ty, val }) },
    }
}
pub open spec fn dec_multi_info(fs: Map<Seq<char>, SDef>, b: Seq<u8>, k: int, pad: bool) -> Option<SMsg> {
    if b.len() < 1 { None } else {
        match dec_key(b.skip(1)) {
            None => None,
            Some((f, rest)) => match dec_val(fs, f.ty, rest, k, pad) { None => None, Some((val, _)) => Some(SMsg::MultiInfo { cont: b[0] != 0, key: f.name, ty: f.ty, val }) },
        }
    }
}
/// Parameters are 32-bit integers or floats.
pub open spec fn dec_param_val(ty: SType, b: Seq<u8>) -> Option<SVal> {
    if !(ty.arr is None) || !(ty.base is INT32 || ty.base is FLOAT) || b.len() < 4 { None } else { Some(SVal::Prim(ty.base, b.take(4))) }
}
pub open spec fn dec_param(b: Seq<u8>) -> Option<SMsg> {
    match dec_key(b) {
        None => None,
        Some((f, rest)) => match dec_param_val(f.ty, rest) { None => None, Some(val) => Some(SMsg::Param { key: f.name, ty: f.ty, val }) },
    }
}
pub open spec fn dec_def_param(b: Seq<u8>) -> Option<SMsg> {
    if b.len() < 1 { None } else {
        match dec_key(b.skip(1)) {
            None => None,
            Some((f, rest)) => match dec_param_val(f.ty, rest) { None => None, Some(val) => Some(SMsg::DefParam { bits: b[0], key: f.name, ty: f.ty, val }) },
        }
    }
}
pub open spec fn dec_log(b: Seq<u8>) -> Option<SMsg> {
    if b.len() < 9 || !level_ok(b[0]) || !utf8_ok(b.skip(9)) { None } else {
        Some(SMsg::Log { level: b[0], tag: None, timestamp: le_u64(b.skip(1)), text: chars_of(b.skip(9)) })
    }
}
pub open spec fn dec_tagged(b: Seq<u8>) -> Option<SMsg> {
    if b.len() < 11 || !level_ok(b[0]) || !utf8_ok(b.skip(11)) { None } else {
        Some(SMsg::Tagged { level: b[0], tag: Some(le_u16(b.skip(1))), timestamp: le_u64(b.skip(3)), text: chars_of(b.skip(11)) })
    }
}
pub open spec fn dec_dropout(b: Seq<u8>) -> Option<SMsg> { if b.len() < 2 { None } else { Some(SMsg::Dropout(le_u16(b))) } }
/// The data of a subscription; all its fields.
pub open spec fn dec_data(fs: Map<Seq<char>, SDef>, multi: Set<Seq<char>>, sub: SSub, b: Seq<u8>, k: int, pad: bool) -> Option<SMsg> {
    if !fs.contains_key(sub.name) { None } else {
        match dec_fmt(fs, fs[sub.name], b, k, pad) {
            None => None,
            Some((f, _)) => match f.ts {
                None => None,
                Some(t) => Some(SMsg::Data { timestamp: t, msg_id: sub.msg_id,
                    data: SFmt { multi: if multi.contains(sub.name) { Some(sub.multi_id) } else { None }, ..f } }),
            },
        }
    }
}
/// Which top-level fields are reported.
pub open spec fn keep(name: Seq<char>, ts: bool, pad: bool) -> bool {
    if name == ts_name() { ts } else if is_padding(name) { pad } else { true }
}
pub open spec fn keeper(ts: bool, pad: bool) -> spec_fn(SInst) -> bool { |i: SInst| keep(i.name, ts, pad) }
pub open spec fn filtered(m: SMsg, ts: bool, pad: bool) -> SMsg {
    match m {
        SMsg::Data { timestamp, msg_id, data } => SMsg::Data { timestamp, msg_id, data: SFmt { fields: data.fields.filter(keeper(ts, pad)), ..data } },
        _ => m,
    }
}
pub open spec fn unhandled(code: u8, b: Seq<u8>) -> SMsg { SMsg::Unhandled { code, contents: b } }
/// A message of the definition phase.
pub open spec fn want_def(fs: Map<Seq<char>, SDef>, t: u8, b: Seq<u8>, k: int, pad: bool) -> Option<SMsg> {
    if t == 0x42 { dec_flags(b) }
    else if t == 0x46 { match p_format(b) { None => None, Some(d) => Some(SMsg::Format(d)) } }
    else if t == 0x41 { match dec_sub(fs, b) { None => None, Some(s) => Some(SMsg::Sub(s)) } }
    else if t == 0x49 { dec_info(fs, b, k, pad) } else if t == 0x4d { dec_multi_info(fs, b, k, pad) }
    else if t == 0x50 { dec_param(b) } else if t == 0x51 { dec_def_param(b) }
    else { Some(unhandled(t, b)) }
}
/// A message of the data phase.
pub open spec fn want_data(fs: Map<Seq<char>, SDef>, subs: Map<u16, SSub>, multi: Set<Seq<char>>, allow: Option<Set<Seq<char>>>, t: u8, b: Seq<u8>, k: int, pad: bool) -> Option<SMsg> {
    if t == 0x44 {
        if b.len() < 2 || !subs.contains_key(le_u16(b)) { None } else {
            let s = subs[le_u16(b)];
            if allow is Some && !allow->Some_0.contains(s.name) { Some(SMsg::Ignored { code: t }) } else { dec_data(fs, multi, s, b.skip(2), k, pad) }
        }
    }
    else if t == 0x52 { if b.len() < 2 { None } else { Some(unhandled(t, b)) } }
    else if t == 0x4c { dec_log(b) } else if t == 0x43 { dec_tagged(b) } else if t == 0x4f { dec_dropout(b) }
    else if t == 0x41 { match dec_sub(fs, b) { None => None, Some(s) => Some(SMsg::Sub(s)) } }
    else if t == 0x49 { dec_info(fs, b, k, pad) } else if t == 0x4d { dec_multi_info(fs, b, k, pad) }
    else if t == 0x50 { dec_param(b) } else if t == 0x51 { dec_def_param(b) }
    else { Some(unhandled(t, b)) }
}
/// The types of message that a property is about.
pub open spec fn is_key_msg(t: u8) -> bool { t == 0x49 || t == 0x4d || t == 0x50 || t == 0x51 }
pub open spec fn is_log_msg(t: u8) -> bool { t == 0x4c || t == 0x43 || t == 0x4f }
// ---------------------------------------------------------------- facts about decoding
pub proof fn dec_fields_none(fs: Map<Seq<char>, SDef>, fl: Seq<SField>, m: nat, n: nat, b: Seq<u8>, k: int, pad: bool)
    requires m <= n <= fl.len(), dec_fields(fs, fl, m, b, k, pad) is None
    ensures dec_fields(fs, fl, n, b, k, pad) is None
    decreases n
{ if m < n { dec_fields_none(fs, fl, m, (n - 1) as nat, b, k, pad); } }
pub proof fn dec_fmts_none(fs: Map<Seq<char>, SDef>, d: SDef, m: nat, n: nat, b: Seq<u8>, k: int, pad: bool)
    requires m <= n, dec_fmts(fs, d, m, b, k, pad) is None
    ensures dec_fmts(fs, d, n, b, k, pad) is None
    decreases n
{ if m < n { dec_fmts_none(fs, d, m, (n - 1) as nat, b, k, pad); } }
/// Without a field named timestamp there is no timestamp.
pub proof fn dec_fields_ts(fs: Map<Seq<char>, SDef>, fl: Seq<SField>, n: nat, b: Seq<u8>, k: int, pad: bool)
    requires n <= fl.len(), forall|i: int| 0 <= i < fl.len() ==> (#[trigger] fl[i]).name != ts_name()
    ensures dec_fields(fs, fl, n, b, k, pad) is Some ==> dec_fields(fs, fl, n, b, k, pad)->Some_0.1 is None
    decreases n
{ if n > 0 { dec_fields_ts(fs, fl, (n - 1) as nat, b, k, pad); } }
pub proof fn first_nonzero_is(o: Seq<u64>)
    ensures match first_nonzero(o) {
        None => forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == 0,
        Some(x) => exists|i: int| 0 <= i < o.len() && #[trigger] o[i] != 0 && x == o[i] as usize && forall|j: int| 0 <= j < i ==> #[trigger] o[j] == 0,
    }
    decreases o.len()
{
    if o.len() > 0 {
        if o[0] != 0 { } else {
            let t = o.skip(1);
            first_nonzero_is(t);
            match first_nonzero(t) {
                None => { assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] == 0 by { if i > 0 { assert(o[i] == t[i - 1]); } } }
                Some(x) => {
                    let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] != 0 && x == t[i] as usize && forall|j: int| 0 <= j < i ==> #[trigger] t[j] == 0;
                    assert(o[i + 1] != 0 && x == o[i + 1] as usize);
                    assert forall|j: int| 0 <= j < i + 1 implies #[trigger] o[j] == 0 by { if j > 0 { assert(o[j] == t[j - 1]); } }
                }
            }
        }
    }
}
} // verus!
