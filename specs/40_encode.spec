@@ module encode
@ items
use crate::ulog::*;
use crate::model::msg::v_msg;
use crate::model::inst::{v_format, v_field, v_value, v_arr, v_insts, v_insts_of, v_insts_is, v_arr_is};
use crate::model::{bytes_of, XRawParts};
@@ trait encode::Encode
@ items
    /// the bytes this value is stored as
    spec fn enc(&self) -> Seq<u8>;
    /// its lengths fit their fields
    spec fn fits(&self) -> bool;
@@ fn encode::Encode::encode
@ spec
    ensures
        /*@[C05,C06]*/ r is Ok ==> (*final($1)).written() == (*old($1)).written() + self.enc(),
        /*@[C06]*/ r is Ok ==> self.fits(),
        /*@[C05,C06]*/ r is Err ==> !self.fits() || !(*old($1)).sound(),
        (*final($1)).sound() == (*old($1)).sound(),
@@ trait encode::EncodeToVec
@ items
    spec fn vfits(&self) -> bool;
    spec fn venc(&self) -> Seq<u8>;
@@ fn encode::EncodeToVec::encode_to_vec
@ spec
    ensures /*@[C05,C06]*/ r is Ok ==> r->Ok_0@ == self.venc() && self.vfits(), r is Err ==> !self.vfits(),
@@ impl encode::<EncodeToVec for T>
@ items
    open spec fn vfits(&self) -> bool { self.fits() }
    open spec fn venc(&self) -> Seq<u8> { self.enc() }
@@ fn encode::<EncodeToVec for T>::encode_to_vec
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ fn encode::key_len
@ spec
    ensures /*@[C06]*/ r is Ok <==> $1@.len() <= 255, r is Ok ==> r->Ok_0 == $1@.len(),
@ closure 0
    |$p0: XTryFromIntError| -> (x_r: crate::xstd::io::Error)
@@ impl encode::<Encode for UlogMessage>
@ items
    open spec fn enc(&self) -> Seq<u8> { frame(v_msg(*self)) }
    open spec fn fits(&self) -> bool { msg_fits(v_msg(*self)) }
@@ fn encode::<Encode for UlogMessage>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@ closure 0
    |$p0: XTryFromIntError| -> (x_r: crate::xstd::io::Error)
@@ fn encode::UlogMessage::message_type
@ spec
    requires !(self is Header),
    ensures /*@[C15,C06]*/ crate::parser::byte_of(r) == code_of(v_msg(*self)),
@@ fn encode::UlogMessage::encode_content
@ spec
    requires !(self is Header),
    ensures
        /*@[C05,C06]*/ r is Ok ==> (*final($1)).written() == (*old($1)).written() + content(v_msg(*self)),
        /*@[C06]*/ r is Ok ==> lengths_fit(v_msg(*self)),
        /*@[C05,C06]*/ r is Err ==> !lengths_fit(v_msg(*self)) || !(*old($1)).sound(),
        (*final($1)).sound() == (*old($1)).sound(),
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for msg::FlagBits>
@ items
    open spec fn enc(&self) -> Seq<u8> { content(self.v()) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for msg::FlagBits>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@ loop 0
    invariant
        (*$1).written() == (*old($1)).written() + self.compat_flags@ + self.incompat_flags@ + enc_u64s(self.appended_data_offsets@, it0.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@@ impl encode::<Encode for msg::Subscription>
@ items
    open spec fn enc(&self) -> Seq<u8> { content(SMsg::Sub(self.sv())) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for msg::Subscription>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for LoggedData>
@ items
    open spec fn enc(&self) -> Seq<u8> { content(self.v()) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for LoggedData>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for msg::Info>
@ items
    open spec fn enc(&self) -> Seq<u8> { content(self.v()) }
    open spec fn fits(&self) -> bool { lengths_fit(self.v()) }
@@ fn encode::<Encode for msg::Info>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for msg::MultiInfo>
@ items
    open spec fn enc(&self) -> Seq<u8> { content(self.v()) }
    open spec fn fits(&self) -> bool { lengths_fit(self.v()) }
@@ fn encode::<Encode for msg::MultiInfo>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for msg::Parameter>
@ items
    open spec fn enc(&self) -> Seq<u8> { content(self.v()) }
    open spec fn fits(&self) -> bool { lengths_fit(self.v()) }
@@ fn encode::<Encode for msg::Parameter>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for msg::DefaultParameter>
@ items
    open spec fn enc(&self) -> Seq<u8> { content(self.v()) }
    open spec fn fits(&self) -> bool { lengths_fit(self.v()) }
@@ fn encode::<Encode for msg::DefaultParameter>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for msg::LoggedString>
@ items
    open spec fn enc(&self) -> Seq<u8> { content(self.v()) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for msg::LoggedString>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for msg::Dropout>
@ items
    open spec fn enc(&self) -> Seq<u8> { content(SMsg::Dropout(self.duration)) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for msg::Dropout>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for msg::LogLevel>
@ items
    open spec fn enc(&self) -> Seq<u8> { seq![self.code()] }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for msg::LogLevel>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for def::Format>
@ items
    open spec fn enc(&self) -> Seq<u8> { enc_def(self.sv()) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for def::Format>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@ loop 0
    invariant
        (*$1).written() == (*old($1)).written() + utf8(self.name@) + seq![0x3au8] + enc_dfields(self.fields.sv(), it0.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@@ impl encode::<Encode for def::Field>
@ items
    open spec fn enc(&self) -> Seq<u8> { enc_dfield(self.sv()) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for def::Field>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for def::TypeExpr>
@ items
    open spec fn enc(&self) -> Seq<u8> { enc_type(self.sv()) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for def::TypeExpr>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for def::BaseType>
@ items
    open spec fn enc(&self) -> Seq<u8> { utf8(base_str(self.sv())) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for def::BaseType>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for inst::Format>
@ items
    open spec fn enc(&self) -> Seq<u8> { enc_fmt(self.sv()) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for inst::Format>::encode
@ tags
C05 C06
@ spec
    decreases self
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@ loop 0
    invariant
        (*$1).written() == (*old($1)).written() + enc_insts(v_insts($over0@), it0.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@@ impl encode::<Encode for inst::Field>
@ items
    open spec fn enc(&self) -> Seq<u8> { enc_val(self.sv().val) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for inst::Field>::encode
@ tags
C05 C06
@ spec
    decreases self
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for inst::FieldValue>
@ items
    open spec fn enc(&self) -> Seq<u8> { enc_val(self.sv()) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for inst::FieldValue>::encode
@ tags
C05 C06
@ spec
    decreases self
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
    proof { match self {
        ArrayU8(a) => { flat_bytes(pbs(a@), a@, a@.len()); assert(a@.take(a@.len() as int) =~= a@); }
        ArrayChar(a) => { flat_bytes(pbs(a@), bytes_of(a@), a@.len()); assert(bytes_of(a@).take(a@.len() as int) =~= bytes_of(a@)); }
        ArrayOther(a) => { v_arr_is(*a); }
        ScalarOther(f) => { v_insts_of(&**f); }
        _ => {} } }
@ loop 0
    invariant
        decreases_to!(self => $over0),
        (*$1).written() == (*old($1)).written() + enc_insts(v_insts($over0@), it0.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 1
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over1@), it1.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 2
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over2@), it2.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 3
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over3@), it3.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 4
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over4@), it4.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loopbody 4
    proof { le_one(i8n($over4@[it4.index@ as int])); }
@ loop 5
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over5@), it5.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 6
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over6@), it6.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 7
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over7@), it7.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 8
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over8@), it8.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 9
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over9@), it9.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 10
    invariant
        (*$1).written() == (*old($1)).written() + flat(pbs($over10@), it10.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loop 11
    invariant
        decreases_to!(self => $over11),
        (*$1).written() == (*old($1)).written() + enc_fmts(v_arr($over11@), it11.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@ loopbody 11
    proof { v_insts_is($over11@[it11.index@ as int]); enc_fmts_step(v_arr($over11@), it11.index@ as nat); }
@ loop 12
    invariant
        decreases_to!(self => $over12),
        (*$1).written() == (*old($1)).written() + enc_fmts(v_arr($over11@), it11.index@ as nat) + enc_insts(v_insts($over12@), it12.index@ as nat),
        (*$1).sound() == (*old($1)).sound(),
@@ impl encode::<Encode for inst::ParameterValue>
@ items
    open spec fn enc(&self) -> Seq<u8> { enc_val(self.sv()) }
    open spec fn fits(&self) -> bool { true }
@@ fn encode::<Encode for inst::ParameterValue>::encode
@ tags
C05 C06
@ prologue
    broadcast use {seq_assoc, seq_add_empty, seq_empty_add, v_insts_is, v_arr_is, le_one};
@@ impl encode::<Encode for &T>
@ items
    open spec fn enc(&self) -> Seq<u8> { (**self).enc() }
    open spec fn fits(&self) -> bool { (**self).fits() }
@@ fn encode::<Encode for &T>::encode
