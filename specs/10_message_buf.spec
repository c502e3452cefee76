@@ impl message_buf::MessageBuf
@ items
    /// representation invariant
    pub open spec fn wf(&self) -> bool { self.current_index <= self.buf@.len() <= usize::MAX }
    /// what has not been read yet
    pub open spec fn rem(&self) -> Seq<u8> { self.buf@.skip(self.current_index as int) }

@@ fn message_buf::MessageBuf::new
@ spec
    ensures /*@[C16]*/ r.wf() && r.rem() == $1@,
@ prologue
    assert($1@.skip(0) =~= $1@);
    assert($1@.len() == vstd::std_specs::vec::spec_vec_len(&$1));
@@ fn message_buf::MessageBuf::from_vec
@ spec
    ensures /*@[C16]*/ r.wf() && r.rem() == $1@,
@ prologue
    assert($1@.skip(0) =~= $1@);
    assert($1@.len() == vstd::std_specs::vec::spec_vec_len(&$1));
@@ fn message_buf::MessageBuf::len
@ spec
    requires self.wf(),
    ensures /*@[C16]*/ r == self.rem().len(),
@@ fn message_buf::MessageBuf::is_empty
@ spec
    requires self.wf(),
    ensures /*@[C16]*/ r == (self.rem().len() == 0),
@@ fn message_buf::MessageBuf::into_remaining_bytes
@ spec
    requires self.wf(),
    ensures /*@[C16]*/ r@ == self.rem(),
@@ fn message_buf::MessageBuf::advance
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ $1 <= old(self).rem().len() ==> r is Ok && r->Ok_0@ == old(self).rem().take($1 as int) && final(self).rem() == old(self).rem().skip($1 as int),
        /*@[C16]*/ $1 > old(self).rem().len() ==> r is Err && *final(self) == *old(self),
@@ fn message_buf::MessageBuf::skip
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ $1 <= old(self).rem().len() ==> r is Ok && final(self).rem() == old(self).rem().skip($1 as int),
        /*@[C16]*/ $1 > old(self).rem().len() ==> r is Err && *final(self) == *old(self),
@ closure 0
    |$p0: &[u8]| -> (b: ()) ensures true
@@ fn message_buf::MessageBuf::take_u8
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 1 ==> r is Ok && r->Ok_0 as nat == un(old(self).rem().take(1)) && final(self).rem() == old(self).rem().skip(1),
        /*@[C16]*/ old(self).rem().len() < 1 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 1 { let b = old(self).rem().take(1); assert(b.take(1) =~= b); un_small(b); } }
@ closure 0
    |$p0: &[u8]| -> (b: u8) requires $p0@.len() >= 1 ensures b == $p0@[0]
@@ fn message_buf::MessageBuf::take_i8
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 1 ==> r is Ok && i8n(r->Ok_0) == un(old(self).rem().take(1)) && final(self).rem() == old(self).rem().skip(1),
        /*@[C16]*/ old(self).rem().len() < 1 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 1 { let b = old(self).rem().take(1); assert(b.take(1) =~= b); un_small(b); } }
@ closure 0
    |$p0: &[u8]| -> (b: i8) requires $p0@.len() >= 1 ensures i8n(b) == $p0@[0]
@ closurebody 0
    proof { i8_cast($p0@[0]); }
@@ fn message_buf::MessageBuf::take_u16
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 2 ==> r is Ok && r->Ok_0 as nat == un(old(self).rem().take(2)) && final(self).rem() == old(self).rem().skip(2),
        /*@[C16]*/ old(self).rem().len() < 2 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 2 { let b = old(self).rem().take(2); assert(b.take(2) =~= b); un_small(b); } }
@@ fn message_buf::MessageBuf::take_i16
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 2 ==> r is Ok && i16n(r->Ok_0) == un(old(self).rem().take(2)) && final(self).rem() == old(self).rem().skip(2),
        /*@[C16]*/ old(self).rem().len() < 2 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 2 { let b = old(self).rem().take(2); assert(b.take(2) =~= b); un_small(b); } }
@@ fn message_buf::MessageBuf::take_u32
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 4 ==> r is Ok && r->Ok_0 as nat == un(old(self).rem().take(4)) && final(self).rem() == old(self).rem().skip(4),
        /*@[C16]*/ old(self).rem().len() < 4 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 4 { let b = old(self).rem().take(4); assert(b.take(4) =~= b); un_small(b); } }
@@ fn message_buf::MessageBuf::take_i32
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 4 ==> r is Ok && i32n(r->Ok_0) == un(old(self).rem().take(4)) && final(self).rem() == old(self).rem().skip(4),
        /*@[C16]*/ old(self).rem().len() < 4 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 4 { let b = old(self).rem().take(4); assert(b.take(4) =~= b); un_small(b); } }
@@ fn message_buf::MessageBuf::take_u64
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 8 ==> r is Ok && r->Ok_0 as nat == un(old(self).rem().take(8)) && final(self).rem() == old(self).rem().skip(8),
        /*@[C16]*/ old(self).rem().len() < 8 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 8 { let b = old(self).rem().take(8); assert(b.take(8) =~= b); un_small(b); } }
@@ fn message_buf::MessageBuf::take_i64
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 8 ==> r is Ok && i64n(r->Ok_0) == un(old(self).rem().take(8)) && final(self).rem() == old(self).rem().skip(8),
        /*@[C16]*/ old(self).rem().len() < 8 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 8 { let b = old(self).rem().take(8); assert(b.take(8) =~= b); un_small(b); } }
@@ fn message_buf::MessageBuf::take_f32
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 4 ==> r is Ok && f32n(r->Ok_0) as nat == un(old(self).rem().take(4)) && final(self).rem() == old(self).rem().skip(4),
        /*@[C16]*/ old(self).rem().len() < 4 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 4 { let b = old(self).rem().take(4); assert(b.take(4) =~= b); un_small(b); } }
@@ fn message_buf::MessageBuf::take_f64
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 8 ==> r is Ok && f64n(r->Ok_0) as nat == un(old(self).rem().take(8)) && final(self).rem() == old(self).rem().skip(8),
        /*@[C16]*/ old(self).rem().len() < 8 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 8 { let b = old(self).rem().take(8); assert(b.take(8) =~= b); un_small(b); } }
@@ fn message_buf::MessageBuf::take_bool
@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        /*@[C16]*/ old(self).rem().len() >= 1 ==> r is Ok && r->Ok_0 == (old(self).rem()[0] != 0) && final(self).rem() == old(self).rem().skip(1),
        /*@[C16]*/ old(self).rem().len() < 1 ==> r is Err && *final(self) == *old(self),
@ prologue
    proof { if old(self).rem().len() >= 1 { un_small(old(self).rem().take(1)); } }
@ closure 0
    |$p0: u8| -> (b: bool) ensures b == ($p0 != 0)
