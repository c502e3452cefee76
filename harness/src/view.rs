//! Plain, comparable copies of what the library yields. Floats are compared by their bits.
use yule_log::encode::Encode;
use yule_log::model::{def, inst, msg};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Bool, Char,
}
pub const ALL_TY: [Ty; 12] = [
    Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::F32, Ty::F64, Ty::Bool, Ty::Char,
];
impl Ty {
    pub fn size(self) -> usize {
        match self {
            Ty::U8 | Ty::I8 | Ty::Bool | Ty::Char => 1,
            Ty::U16 | Ty::I16 => 2,
            Ty::U32 | Ty::I32 | Ty::F32 => 4,
            Ty::U64 | Ty::I64 | Ty::F64 => 8,
        }
    }
    /// Spelling in a format definition.
    pub fn name(self) -> &'static str {
        match self {
            Ty::U8 => "uint8_t", Ty::U16 => "uint16_t", Ty::U32 => "uint32_t", Ty::U64 => "uint64_t",
            Ty::I8 => "int8_t", Ty::I16 => "int16_t", Ty::I32 => "int32_t", Ty::I64 => "int64_t",
            Ty::F32 => "float", Ty::F64 => "double", Ty::Bool => "bool", Ty::Char => "char",
        }
    }
    pub fn from_name(s: &str) -> Option<Ty> {
        ALL_TY.iter().copied().find(|t| t.name() == s)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Base {
    P(Ty),
    O(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TypeV {
    pub base: Base,
    pub arr: Option<usize>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FormatV {
    pub name: String,
    pub fields: Vec<(String, TypeV)>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    S(Ty, u64),
    A(Ty, Vec<u64>),
    O(Box<Inst>),
    AO(Vec<Inst>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FieldV {
    pub name: String,
    pub ty: TypeV,
    pub val: Val,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Inst {
    pub name: String,
    pub ts: Option<u64>,
    pub fields: Vec<FieldV>,
    pub multi: Option<u8>,
    pub def: FormatV,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Header { version: u8, ts: u64 },
    Flags { compat: Vec<u8>, incompat: Vec<u8>, offs: Vec<u64> },
    Format(FormatV),
    Data { ts: u64, msg_id: u16, data: Inst },
    Sub { multi: u8, id: u16, name: String },
    Info { key: String, ty: TypeV, val: Val },
    MInfo { cont: bool, key: String, ty: TypeV, val: Val },
    Param { key: String, ty: TypeV, val: Val },
    DParam { key: String, types: u8, ty: TypeV, val: Val },
    Str { tagged: bool, level: u8, tag: Option<u16>, ts: u64, msg: String },
    Drop(u16),
    Unhandled { ty: u8, bytes: Vec<u8> },
    Ignored { ty: u8 },
}
impl Item {
    pub fn kind(&self) -> &'static str {
        match self {
            Item::Header { .. } => "header",
            Item::Flags { .. } => "flags",
            Item::Format(_) => "format",
            Item::Data { .. } => "data",
            Item::Sub { .. } => "sub",
            Item::Info { .. } => "info",
            Item::MInfo { .. } => "minfo",
            Item::Param { .. } => "param",
            Item::DParam { .. } => "dparam",
            Item::Str { .. } => "string",
            Item::Drop(_) => "dropout",
            Item::Unhandled { .. } => "unhandled",
            Item::Ignored { .. } => "ignored",
        }
    }
}

pub fn type_v(t: &def::TypeExpr) -> TypeV {
    use def::BaseType::*;
    let base = match &t.base_type {
        UINT8 => Base::P(Ty::U8), UINT16 => Base::P(Ty::U16), UINT32 => Base::P(Ty::U32), UINT64 => Base::P(Ty::U64),
        INT8 => Base::P(Ty::I8), INT16 => Base::P(Ty::I16), INT32 => Base::P(Ty::I32), INT64 => Base::P(Ty::I64),
        FLOAT => Base::P(Ty::F32), DOUBLE => Base::P(Ty::F64), BOOL => Base::P(Ty::Bool), CHAR => Base::P(Ty::Char),
        OTHER(s) => Base::O(s.clone()),
    };
    TypeV { base, arr: t.array_size }
}
pub fn format_v(f: &def::Format) -> FormatV {
    FormatV {
        name: f.name.to_string(),
        fields: f.fields.iter().map(|x| (x.name.to_string(), type_v(&x.r#type))).collect(),
    }
}
pub fn val_v(v: &inst::FieldValue) -> Val {
    use inst::FieldValue::*;
    match v {
        ScalarU8(x) => Val::S(Ty::U8, *x as u64),
        ScalarU16(x) => Val::S(Ty::U16, *x as u64),
        ScalarU32(x) => Val::S(Ty::U32, *x as u64),
        ScalarU64(x) => Val::S(Ty::U64, *x),
        ScalarI8(x) => Val::S(Ty::I8, *x as u8 as u64),
        ScalarI16(x) => Val::S(Ty::I16, *x as u16 as u64),
        ScalarI32(x) => Val::S(Ty::I32, *x as u32 as u64),
        ScalarI64(x) => Val::S(Ty::I64, *x as u64),
        ScalarF32(x) => Val::S(Ty::F32, x.to_bits() as u64),
        ScalarF64(x) => Val::S(Ty::F64, x.to_bits()),
        ScalarBool(x) => Val::S(Ty::Bool, *x as u64),
        ScalarChar(x) => Val::S(Ty::Char, x.0 as u64),
        ScalarOther(x) => Val::O(Box::new(inst_v(x))),
        ArrayU8(a) => Val::A(Ty::U8, a.iter().map(|x| *x as u64).collect()),
        ArrayU16(a) => Val::A(Ty::U16, a.iter().map(|x| *x as u64).collect()),
        ArrayU32(a) => Val::A(Ty::U32, a.iter().map(|x| *x as u64).collect()),
        ArrayU64(a) => Val::A(Ty::U64, a.to_vec()),
        ArrayI8(a) => Val::A(Ty::I8, a.iter().map(|x| *x as u8 as u64).collect()),
        ArrayI16(a) => Val::A(Ty::I16, a.iter().map(|x| *x as u16 as u64).collect()),
        ArrayI32(a) => Val::A(Ty::I32, a.iter().map(|x| *x as u32 as u64).collect()),
        ArrayI64(a) => Val::A(Ty::I64, a.iter().map(|x| *x as u64).collect()),
        ArrayF32(a) => Val::A(Ty::F32, a.iter().map(|x| x.to_bits() as u64).collect()),
        ArrayF64(a) => Val::A(Ty::F64, a.iter().map(|x| x.to_bits()).collect()),
        ArrayBool(a) => Val::A(Ty::Bool, a.iter().map(|x| *x as u64).collect()),
        ArrayChar(a) => Val::A(Ty::Char, a.iter().map(|x| x.0 as u64).collect()),
        ArrayOther(a) => Val::AO(a.iter().map(inst_v).collect()),
    }
}
pub fn inst_v(f: &inst::Format) -> Inst {
    Inst {
        name: f.name.to_string(),
        ts: f.timestamp,
        fields: f
            .fields
            .iter()
            .map(|x| FieldV { name: x.name.to_string(), ty: type_v(&x.r#type), val: val_v(&x.value) })
            .collect(),
        multi: f.multi_id_index,
        def: format_v(&f.def_format),
    }
}
fn param_v(v: &inst::ParameterValue) -> Val {
    match v {
        inst::ParameterValue::INT32(x) => Val::S(Ty::I32, *x as u32 as u64),
        inst::ParameterValue::FLOAT(x) => Val::S(Ty::F32, x.to_bits() as u64),
    }
}
fn string_v(tagged: bool, s: &msg::LoggedString) -> Item {
    Item::Str { tagged, level: s.level as u8, tag: s.tag, ts: s.timestamp, msg: s.msg.clone() }
}
pub fn item_v(m: &msg::UlogMessage) -> Item {
    use msg::UlogMessage::*;
    match m {
        Header(h) => Item::Header { version: h.version, ts: h.timestamp },
        FlagBits(f) => Item::Flags {
            // The lowest bits as the message itself tells them.
            compat: bit0(&f.compat_flags, f.has_default_parameters()),
            incompat: bit0(&f.incompat_flags, f.has_data_appended()),
            offs: f.appended_data_offsets.to_vec(),
        },
        FormatDefinition(f) => Item::Format(format_v(f)),
        LoggedData(d) => Item::Data { ts: d.timestamp, msg_id: d.msg_id, data: inst_v(&d.data) },
        AddSubscription(s) => Item::Sub { multi: s.multi_id, id: s.msg_id, name: s.message_name.clone() },
        Info(i) => Item::Info { key: i.key.clone(), ty: type_v(&i.r#type), val: val_v(&i.value) },
        MultiInfo(i) => Item::MInfo { cont: i.is_continued, key: i.key.clone(), ty: type_v(&i.r#type), val: val_v(&i.value) },
        Parameter(p) => Item::Param { key: p.key.clone(), ty: type_v(&p.r#type), val: param_v(&p.value) },
        DefaultParameter(p) => Item::DParam { key: p.key.clone(), types: default_types(p), ty: type_v(&p.r#type), val: param_v(&p.value) },
        LoggedString(s) => string_v(false, s),
        TaggedLoggedString(s) => string_v(true, s),
        DropoutMark(d) => {
            // The duration is private to the crate: its Debug output names it.
            let s = format!("{d:?}");
            let n: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
            Item::Drop(n.parse().unwrap_or_else(|_| {
                let mut v = vec![];
                let _ = d.encode(&mut v);
                u16::from_le_bytes([v[0], v[1]])
            }))
        }
        Unhandled { msg_type, message_contents } => Item::Unhandled { ty: *msg_type, bytes: message_contents.clone() },
        Ignored { msg_type } => Item::Ignored { ty: *msg_type },
    }
}

fn bit0(b: &[u8], v: bool) -> Vec<u8> {
    let mut b = b.to_vec();
    b[0] = b[0] & !1 | v as u8;
    b
}
/// Bits 0 and 1 as the message itself tells them.
fn default_types(p: &yule_log::model::msg::DefaultParameter) -> u8 {
    let t = p.get_default_type();
    p.default_types & !3 | t.system_wide as u8 | (t.configuration as u8) << 1
}
