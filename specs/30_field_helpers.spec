@@ trait field_helpers::ParseFromBuf
@ items
    spec fn base() -> SBase;
    spec fn fb(self) -> Seq<u8>;
@@ module field_helpers
@ items
use crate::ulog::*;
/// the name is imported elsewhere; its calls are specialised
pub fn parse_array() {}
pub open spec fn fbs<T: ParseFromBuf>(s: Seq<T>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].fb()) }
/// The elements of arrays are the values that they stand for.
pub proof fn fbs_is() ensures
    forall|s: Seq<u8>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<CChar>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<u16>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<u32>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<u64>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<i8>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<i16>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<i32>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<i64>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<f32>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<f64>| #[trigger] fbs(s) == pbs(s),
    forall|s: Seq<bool>| #[trigger] fbs(s) == pbs(s),
{
    assert forall|s: Seq<u8>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<CChar>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<u16>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<u32>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<u64>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<i8>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<i16>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<i32>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<i64>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<f32>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<f64>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
    assert forall|s: Seq<bool>| #[trigger] fbs(s) == pbs(s) by { assert(fbs(s) =~= pbs(s)); }
}
pub broadcast proof fn le_un1(b: Seq<u8>) requires b.len() == 1 ensures #[trigger] le(1, un(b)) == b, un(b) == b[0] { le_un(1, b); un_small(b); }
@@ fn field_helpers::ParseFromBuf::parse_from_buf
@ spec
    requires old($1).wf(),
    ensures final($1).wf(),
        /*@[C04,C17]*/ (match dec_prim(Self::base(), old($1).rem()) {
            Some((v, rest)) => r is Ok && r->Ok_0.fb() == v && final($1).rem() == rest,
            None => r is Err,
        }),
@@ impl field_helpers::<ParseFromBuf for u8>
@ items
    open spec fn base() -> SBase { SBase::UINT8 }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for u8>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for CChar>
@ items
    open spec fn base() -> SBase { SBase::CHAR }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for CChar>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for u16>
@ items
    open spec fn base() -> SBase { SBase::UINT16 }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for u16>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for u32>
@ items
    open spec fn base() -> SBase { SBase::UINT32 }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for u32>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for u64>
@ items
    open spec fn base() -> SBase { SBase::UINT64 }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for u64>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for i8>
@ items
    open spec fn base() -> SBase { SBase::INT8 }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for i8>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for i16>
@ items
    open spec fn base() -> SBase { SBase::INT16 }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for i16>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for i32>
@ items
    open spec fn base() -> SBase { SBase::INT32 }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for i32>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for i64>
@ items
    open spec fn base() -> SBase { SBase::INT64 }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for i64>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for f32>
@ items
    open spec fn base() -> SBase { SBase::FLOAT }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for f32>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for f64>
@ items
    open spec fn base() -> SBase { SBase::DOUBLE }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for f64>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for bool>
@ items
    open spec fn base() -> SBase { SBase::BOOL }
    open spec fn fb(self) -> Seq<u8> { self.pb() }
@@ fn field_helpers::<ParseFromBuf for bool>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ impl field_helpers::<ParseFromBuf for char>
@ items
    open spec fn base() -> SBase { SBase::CHAR }
    open spec fn fb(self) -> Seq<u8> { seq![self as u8] }
@@ fn field_helpers::<ParseFromBuf for char>::parse_from_buf
@ prologue
    broadcast use {le_un, le_un1};
    proof { if old($1).rem().len() >= 1 { let b = old($1).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ fn field_helpers::parse_data_field
@ spec
    requires old($1).wf(),
    ensures final($1).wf(),
        /*@[C04,C17]*/ (match dec_prim(T::base(), old($1).rem()) {
            Some((v, rest)) => r is Ok && r->Ok_0.fb() == v && final($1).rem() == rest,
            None => r is Err,
        }),
@@ fn field_helpers::parse_array
@ drop
    a higher-order function: every call is checked with its argument substituted
@@ specialize field_helpers::parse_array parse_array_prim
@ site
    field_helpers::parse_primitive_array
@ arg
    2
@ header
    pub fn parse_array_prim<T: ParseFromBuf>($c0: usize, $c1: &mut MessageBuf) -> Result<Vec<T>, ULogError>
@ call
    parse_array_prim::<T>($args)
@@ fn field_helpers::parse_array_prim
@ spec
    requires old($2).wf(), old($2).rem().len() <= msg_max(), width(T::base()) >= 1,
    ensures final($2).wf(), r is Ok ==> final($2).rem().len() <= old($2).rem().len(),
        /*@[C04,C17]*/ (match (if $1 > old($2).rem().len() { None } else { dec_prims(T::base(), $1 as nat, old($2).rem()) }) {
            Some((v, rest)) => r is Ok && fbs(r->Ok_0@) == v && final($2).rem() == rest,
            None => r is Err,
        }),
@ loop 0
    invariant old($2).wf(), $2.wf(), $1 <= old($2).rem().len(), $2.rem().len() <= old($2).rem().len(),
        it0.snapshot@.end == $1,
        dec_prims(T::base(), it0.index@ as nat, old($2).rem()) == Some((fbs($mut0@), $2.rem())),
@ loopbody 0
    proof { if dec_prim(T::base(), $2.rem()) is None { dec_prims_none(T::base(), (it0.index@ + 1) as nat, $1 as nat, old($2).rem()); } }
@@ fn field_helpers::parse_primitive_array
@ spec
    requires old($2).wf(), old($2).rem().len() <= msg_max(), width(T::base()) >= 1,
    ensures final($2).wf(), r is Ok ==> final($2).rem().len() <= old($2).rem().len(),
        /*@[C04,C17]*/ (match (if $1 > old($2).rem().len() { None } else { dec_prims(T::base(), $1 as nat, old($2).rem()) }) {
            Some((v, rest)) => r is Ok && fbs(r->Ok_0@) == v && final($2).rem() == rest,
            None => r is Err,
        }),
