@@ item model::msg::UlogMessage
@ derive
Debug
@@ module model::msg
@ items
use crate::ulog::*;
impl XView for FileHeader { type SV = FileHeader; open spec fn sv(&self) -> FileHeader { *self } }
impl XView for Subscription { type SV = SSub; open spec fn sv(&self) -> SSub { SSub { multi_id: self.multi_id, msg_id: self.msg_id, name: self.message_name@ } } }
pub open spec fn v_msg(m: UlogMessage) -> SMsg {
    match m {
        UlogMessage::Header(h) => SMsg::Header { version: h.version, timestamp: h.timestamp },
        UlogMessage::FlagBits(f) => f.v(),
        UlogMessage::FormatDefinition(d) => SMsg::Format(d.sv()),
        UlogMessage::LoggedData(d) => d.v(),
        UlogMessage::AddSubscription(x) => SMsg::Sub(x.sv()),
        UlogMessage::Info(x) => x.v(),
        UlogMessage::MultiInfo(x) => x.v(),
        UlogMessage::Parameter(x) => x.v(),
        UlogMessage::DefaultParameter(x) => x.v(),
        UlogMessage::LoggedString(x) => x.v(),
        UlogMessage::TaggedLoggedString(x) => SMsg::Tagged { level: x.level.code(), tag: x.tag, timestamp: x.timestamp, text: x.msg@ },
        UlogMessage::DropoutMark(x) => SMsg::Dropout(x.duration),
        UlogMessage::Unhandled { msg_type, message_contents } => SMsg::Unhandled { code: msg_type, contents: message_contents@ },
        UlogMessage::Ignored { msg_type } => SMsg::Ignored { code: msg_type },
    }
}
impl FlagBits { pub open spec fn v(self) -> SMsg { SMsg::FlagBits { compat: self.compat_flags@, incompat: self.incompat_flags@, offsets: self.appended_data_offsets@ } } }
impl LoggedData { pub open spec fn v(self) -> SMsg { SMsg::Data { timestamp: self.timestamp, msg_id: self.msg_id, data: self.data.sv() } } }
impl Info { pub open spec fn v(self) -> SMsg { SMsg::Info { key: self.key@, ty: self.r#type.sv(), val: self.value.sv() } } }
impl MultiInfo { pub open spec fn v(self) -> SMsg { SMsg::MultiInfo { cont: self.is_continued, key: self.key@, ty: self.r#type.sv(), val: self.value.sv() } } }
impl Parameter { pub open spec fn v(self) -> SMsg { SMsg::Param { key: self.key@, ty: self.r#type.sv(), val: self.value.sv() } } }
impl DefaultParameter { pub open spec fn v(self) -> SMsg { SMsg::DefParam { bits: self.default_types, key: self.key@, ty: self.r#type.sv(), val: self.value.sv() } } }
impl LoggedString { pub open spec fn v(self) -> SMsg { SMsg::Log { level: self.level.code(), tag: self.tag, timestamp: self.timestamp, text: self.msg@ } } }
impl LogLevel {
    /// The byte that stands for a level.
    pub open spec fn code(self) -> u8 { match self {
        LogLevel::Emerg => 0x30, LogLevel::Alert => 0x31, LogLevel::Crit => 0x32, LogLevel::Err => 0x33,
        LogLevel::Warning => 0x34, LogLevel::Notice => 0x35, LogLevel::Info => 0x36, LogLevel::Debug => 0x37 } }
}
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for LogLevel { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: u8) -> Result<LogLevel, ULogError> { arbitrary() } }
@@ module model::def
@ items
use crate::ulog::*;
impl XView for BaseType { type SV = SBase; open spec fn sv(&self) -> SBase { match self {
    BaseType::UINT8 => SBase::UINT8, BaseType::UINT16 => SBase::UINT16, BaseType::UINT32 => SBase::UINT32, BaseType::UINT64 => SBase::UINT64,
    BaseType::INT8 => SBase::INT8, BaseType::INT16 => SBase::INT16, BaseType::INT32 => SBase::INT32, BaseType::INT64 => SBase::INT64,
    BaseType::FLOAT => SBase::FLOAT, BaseType::DOUBLE => SBase::DOUBLE, BaseType::BOOL => SBase::BOOL, BaseType::CHAR => SBase::CHAR,
    BaseType::OTHER(s) => SBase::OTHER(s@) } } }
impl XView for TypeExpr { type SV = SType; open spec fn sv(&self) -> SType { SType { base: self.base_type.sv(), arr: self.array_size } } }
impl XView for Field { type SV = SField; open spec fn sv(&self) -> SField { SField { name: self.name@, ty: self.r#type.sv() } } }
impl XView for Format { type SV = SDef; open spec fn sv(&self) -> SDef { SDef { name: self.name@, fields: self.fields.sv(), padding: self.padding } } }
@@ module model::inst
@ items
use crate::ulog::*;
pub open spec fn seqs<T>(s: Seq<T>, f: spec_fn(T) -> Seq<u8>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| f(s[i])) }
pub open spec fn v_format(f: Format) -> SFmt decreases f {
    SFmt { ts: f.timestamp, name: f.name@, multi: f.multi_id_index, def: f.def_format.sv(),
        fields: Seq::new(f.fields@.len(), |i: int| if 0 <= i < f.fields@.len() { v_field(f.fields@[i]) } else { arbitrary() }) }
}
pub open spec fn v_field(f: Field) -> SInst decreases f { SInst { name: f.name@, ty: f.r#type.sv(), val: v_value(f.value) } }
pub open spec fn v_value(v: FieldValue) -> SVal decreases v {
    match v {
        FieldValue::ScalarU8(x) => SVal::Prim(SBase::UINT8, x.pb()),
        FieldValue::ScalarU16(x) => SVal::Prim(SBase::UINT16, x.pb()),
        FieldValue::ScalarU32(x) => SVal::Prim(SBase::UINT32, x.pb()),
        FieldValue::ScalarU64(x) => SVal::Prim(SBase::UINT64, x.pb()),
        FieldValue::ScalarI8(x) => SVal::Prim(SBase::INT8, x.pb()),
        FieldValue::ScalarI16(x) => SVal::Prim(SBase::INT16, x.pb()),
        FieldValue::ScalarI32(x) => SVal::Prim(SBase::INT32, x.pb()),
        FieldValue::ScalarI64(x) => SVal::Prim(SBase::INT64, x.pb()),
        FieldValue::ScalarF32(x) => SVal::Prim(SBase::FLOAT, x.pb()),
        FieldValue::ScalarF64(x) => SVal::Prim(SBase::DOUBLE, x.pb()),
        FieldValue::ScalarBool(x) => SVal::Prim(SBase::BOOL, x.pb()),
        FieldValue::ScalarChar(x) => SVal::Prim(SBase::CHAR, x.pb()),
        FieldValue::ScalarOther(f) => SVal::Nested(Box::new(v_format(*f))),
        FieldValue::ArrayU8(x) => SVal::PrimArr(SBase::UINT8, pbs(x@)),
        FieldValue::ArrayU16(x) => SVal::PrimArr(SBase::UINT16, pbs(x@)),
        FieldValue::ArrayU32(x) => SVal::PrimArr(SBase::UINT32, pbs(x@)),
        FieldValue::ArrayU64(x) => SVal::PrimArr(SBase::UINT64, pbs(x@)),
        FieldValue::ArrayI8(x) => SVal::PrimArr(SBase::INT8, pbs(x@)),
        FieldValue::ArrayI16(x) => SVal::PrimArr(SBase::INT16, pbs(x@)),
        FieldValue::ArrayI32(x) => SVal::PrimArr(SBase::INT32, pbs(x@)),
        FieldValue::ArrayI64(x) => SVal::PrimArr(SBase::INT64, pbs(x@)),
        FieldValue::ArrayF32(x) => SVal::PrimArr(SBase::FLOAT, pbs(x@)),
        FieldValue::ArrayF64(x) => SVal::PrimArr(SBase::DOUBLE, pbs(x@)),
        FieldValue::ArrayBool(x) => SVal::PrimArr(SBase::BOOL, pbs(x@)),
        FieldValue::ArrayChar(x) => SVal::PrimArr(SBase::CHAR, pbs(x@)),
        FieldValue::ArrayOther(a) => SVal::NestedArr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { v_format(a@[i]) } else { arbitrary() })),
    }
}
impl XView for Format { type SV = SFmt; open spec fn sv(&self) -> SFmt { v_format(*self) } }
impl XView for Field { type SV = SInst; open spec fn sv(&self) -> SInst { v_field(*self) } }
pub open spec fn v_arr(s: Seq<Format>) -> Seq<SFmt> { Seq::new(s.len(), |i: int| if 0 <= i < s.len() { v_format(s[i]) } else { arbitrary() }) }
pub open spec fn v_insts(s: Seq<Field>) -> Seq<SInst> { Seq::new(s.len(), |i: int| if 0 <= i < s.len() { v_field(s[i]) } else { arbitrary() }) }
pub broadcast proof fn v_insts_is(f: Format) ensures (#[trigger] v_format(f)).fields == v_insts(f.fields@) { assert(v_format(f).fields =~= v_insts(f.fields@)); }
pub broadcast proof fn v_insts_push(s: Seq<Field>, x: Field) ensures #[trigger] v_insts(s.push(x)) == v_insts(s).push(v_field(x)) { assert(v_insts(s.push(x)) =~= v_insts(s).push(v_field(x))); }
pub broadcast proof fn v_arr_push(s: Seq<Format>, x: Format) ensures #[trigger] v_arr(s.push(x)) == v_arr(s).push(v_format(x)) { assert(v_arr(s.push(x)) =~= v_arr(s).push(v_format(x))); }
pub proof fn v_insts_of(f: &Format) ensures v_format(*f).fields == v_insts(f.fields@) { v_insts_is(*f); }
pub broadcast proof fn v_arr_is(v: Vec<Format>) ensures #[trigger] v_value(FieldValue::ArrayOther(v)) == SVal::NestedArr(v_arr(v@)) { assert(v_value(FieldValue::ArrayOther(v))->NestedArr_0 =~= v_arr(v@)); }
pub broadcast proof fn v_insts_svs(s: Seq<Field>) ensures #![trigger svs(s)] #![trigger v_insts(s)] svs(s) == v_insts(s) { assert(svs(s) =~= v_insts(s)); }
pub broadcast proof fn v_arr_svs(s: Seq<Format>) ensures #![trigger svs(s)] #![trigger v_arr(s)] svs(s) == v_arr(s) { assert(svs(s) =~= v_arr(s)); }
pub broadcast proof fn svs_cc(s: Seq<CChar>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
impl XView for ParameterValue { type SV = SVal; open spec fn sv(&self) -> SVal { match self {
    ParameterValue::INT32(x) => SVal::Prim(SBase::INT32, x.pb()), ParameterValue::FLOAT(x) => SVal::Prim(SBase::FLOAT, x.pb()) } } }
impl XView for FieldValue { type SV = SVal; open spec fn sv(&self) -> SVal { v_value(*self) } }
impl XInto<Shared<Format>> for Format {
    open spec fn into_ok(self, r: Shared<Format>) -> bool { *r == self }
    fn x_into(self) -> (r: Shared<Format>) { Shared::new(self) }
}
@@ module model
@ items
use crate::ulog::*;
impl XView for CChar { type SV = CChar; open spec fn sv(&self) -> CChar { *self } }
impl XClone for CChar { fn x_clone(&self) -> (r: Self) { *self } }
impl XInto<CChar> for u8 {
    open spec fn into_ok(self, r: CChar) -> bool { r.0 == self }
    fn x_into(self) -> (r: CChar) { CChar::from(self) }
}
/// The bytes of character data; the length must be the slice's own.
pub trait XRawParts {
    spec fn cc(&self) -> Seq<CChar>;
    fn x_raw_parts(&self, n: usize) -> (r: &[u8])
        requires n == self.cc().len()
        ensures r@ == bytes_of(self.cc());
}
impl vstd::std_specs::convert::FromSpecImpl<u8> for CChar { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u8) -> CChar { CChar(v) } }
impl vstd::std_specs::convert::FromSpecImpl<CChar> for u8 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: CChar) -> u8 { v.0 } }
impl XRawParts for [CChar] {
    open spec fn cc(&self) -> Seq<CChar> { self@ }
    #[verifier::external_body]
    fn x_raw_parts(&self, n: usize) -> &[u8] { unimplemented!() }
}
impl XRawParts for Vec<CChar> {
    open spec fn cc(&self) -> Seq<CChar> { self@ }
    #[verifier::external_body]
    fn x_raw_parts(&self, n: usize) -> &[u8] { unimplemented!() }
}
/// t is s without its trailing NULs
pub open spec fn is_trimmed(t: Seq<CChar>, s: Seq<CChar>) -> bool {
    &&& t.len() <= s.len() && t == s.take(t.len() as int)
    &&& t.len() == 0 || t.last().0 != 0
    &&& forall|i: int| t.len() <= i < s.len() ==> (#[trigger] s[i]).0 == 0
}
pub open spec fn bytes_of(s: Seq<CChar>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i].0) }
impl XPrim for CChar { open spec fn base() -> SBase { SBase::CHAR } open spec fn pb(self) -> Seq<u8> { seq![self.0] } }
@@ fn model::<From<u8> for CChar>::from
@ tags
C20 C04
@ spec
    ensures /*@[C20,C04]*/ r.0 == $1,
@@ fn model::<From<CChar> for u8>::from
@ tags
C20 C05
@ spec
    ensures /*@[C20,C05]*/ r == $1.0,
@@ fn model::CChar::as_u8
@ spec
    ensures /*@[C20]*/ r == self.0,
@@ fn model::CChar::as_char
@ spec
    ensures /*@[C20]*/ self.0 < 128 ==> r == self.0 as char, self.0 >= 128 ==> r == '\u{FFFD}',
@@ trait model::CCharSlice
@ items
    spec fn ccs(&self) -> Seq<CChar>;
@@ fn model::CCharSlice::as_bytes
@ spec
    ensures /*@[C20]*/ r@ == bytes_of(self.ccs()),
@@ fn model::CCharSlice::trim_end_nul
@ spec
    ensures /*@[C20]*/ is_trimmed(r@, self.ccs()),
@@ fn model::CCharSlice::to_string_lossy
@ spec
    ensures /*@[C20]*/ r@ == lossy(bytes_of(self.ccs())),
@@ fn model::CCharSlice::to_string_lossy_trimmed
@ spec
    ensures /*@[C20]*/ is_trimmed_str(r@, lossy(bytes_of(self.ccs())), 0u8 as char),
@@ impl model::<CCharSlice for [CChar]>
@ items
    open spec fn ccs(&self) -> Seq<CChar> { self@ }
@@ impl model::<CCharSlice for Vec<CChar>>
@ items
    open spec fn ccs(&self) -> Seq<CChar> { self@ }
@@ fn model::<CCharSlice for [CChar]>::trim_end_nul
@ loop 0
    invariant $mut0 <= self@.len(), forall|i: int| $mut0 <= i < self@.len() ==> (#[trigger] self@[i]).0 == 0,
    decreases $mut0
@@ fn model::inst::Format::flatten
@ drop
    deprecated convenience; calls Display, not part of any listed property
@@ fn model::inst::Format::flatten_sub
@ drop
    deprecated convenience; calls Display, not part of any listed property
@@ fn model::inst::Format::flatten_data_type
@ drop
    deprecated convenience; calls Display, not part of any listed property
@@ fn model::msg::FileHeader::to_bytes
@ spec
    ensures /*@[C06,C05]*/ r@ == enc_header(self.version, self.timestamp),
@ prologue
    broadcast use {seq_assoc, seq_empty_add};
    assert(MAGIC@ =~= magic());
    assert(seq![self.version] =~= Seq::<u8>::empty().push(self.version));
@@ fn model::msg::FlagBits::has_default_parameters
@ spec
    ensures /*@[C10]*/ r == (self.compat_flags@[0] & 1 != 0),
@@ fn model::msg::FlagBits::has_data_appended
@ spec
    ensures /*@[C10]*/ r == (self.incompat_flags@[0] & 1 != 0),
@@ fn model::msg::DefaultParameter::get_default_type
@ spec
    ensures /*@[C17]*/ r.system_wide == (self.default_types & 1 != 0), r.configuration == (self.default_types & 2 != 0),
@@ fn model::msg::<TryFrom<u8> for LogLevel>::try_from
@ spec
    ensures
        /*@[C18]*/ r is Ok <==> level_ok($1),
        /*@[C18]*/ r is Ok ==> r->Ok_0.code() == $1,
@@ fn model::def::TypeExpr::is_scalar
@ spec
    ensures r == self.array_size is None,
@@ fn model::def::TypeExpr::is_array
@ spec
    ensures r == self.array_size is Some,
@@ fn model::<CCharSlice for [CChar]>::to_string_lossy
@@ fn model::<CCharSlice for [CChar]>::as_bytes
@@ fn model::<CCharSlice for [CChar]>::to_string_lossy_trimmed
@@ fn model::<CCharSlice for Vec<CChar>>::to_string_lossy
@@ fn model::<CCharSlice for Vec<CChar>>::as_bytes
@@ fn model::<CCharSlice for Vec<CChar>>::trim_end_nul
@@ fn model::<CCharSlice for Vec<CChar>>::to_string_lossy_trimmed
@@ impl model::<std::fmt::Display for CChar>
@ drop
    Display of a character is not part of any listed property
@@ fn model::inst::FieldValue::to_scalars
@ tags
C21
@ spec
    ensures /*@[C21]*/ (match self.sv() {
            SVal::PrimArr(t, l) => r is Some && r->Some_0.sv() == Seq::new(l.len(), |i: int| SVal::Prim(t, l[i])),
            SVal::NestedArr(l) => r is Some && r->Some_0.sv() == Seq::new(l.len(), |i: int| SVal::Nested(Box::new(l[i]))),
            _ => r is None,
        }),
@ closure 0
    |$p0: &u8| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarU8(*$p0)
@ closure 1
    |$p0: &u16| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarU16(*$p0)
@ closure 2
    |$p0: &u32| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarU32(*$p0)
@ closure 3
    |$p0: &u64| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarU64(*$p0)
@ closure 4
    |$p0: &i8| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarI8(*$p0)
@ closure 5
    |$p0: &i16| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarI16(*$p0)
@ closure 6
    |$p0: &i32| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarI32(*$p0)
@ closure 7
    |$p0: &i64| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarI64(*$p0)
@ closure 8
    |$p0: &f32| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarF32(*$p0)
@ closure 9
    |$p0: &f64| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarF64(*$p0)
@ closure 10
    |$p0: &bool| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarBool(*$p0)
@ closure 11
    |$p0: &CChar| -> (o: inst::FieldValue) ensures o == inst::FieldValue::ScalarChar(*$p0)
@ closure 12
    |$p0: &inst::Format| -> (o: inst::FieldValue) ensures o.sv() == SVal::Nested(Box::new($p0.sv()))

@@ fn model::msg::<Clone for Subscription>::clone
@ tags
C02 C11 C14
@ optional
@@ fn model::def::<Clone for BaseType>::clone
@ tags
C03 C04
@ optional
@@ fn model::def::<Clone for TypeExpr>::clone
@ tags
C03 C04
@ optional
@@ fn model::def::<Clone for Field>::clone
@ tags
C03 C04
@ optional
@@ fn model::def::<Clone for Format>::clone
@ tags
C03 C04 C11
@ optional
@@ fn model::inst::<Clone for Format>::clone
@ recursive
Format Field FieldValue
@ tags
C21
@ optional
@ prologue
    broadcast use {v_insts_is, v_insts_svs};
@@ fn model::inst::<Clone for Field>::clone
@ recursive
Format Field FieldValue
@ tags
C21
@ optional
@@ fn model::inst::<Clone for ParameterValue>::clone
@ tags
C21
@ optional
@@ fn model::inst::<Clone for FieldValue>::clone
@ recursive
Format Field FieldValue
@ tags
C21
@ optional
@ prologue
    broadcast use {v_arr_is, v_arr_svs, svs_prims, svs_cc};
