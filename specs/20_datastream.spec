@@ impl datastream::DataStream
@ items
    /// bytes that the reader has still to deliver
    pub open spec fn left(&self) -> Seq<u8> { self.reader.stream() }
    pub open spec fn failed(&self) -> bool { self.reader.failed() }
    pub open spec fn wf(&self) -> bool { self.eof ==> self.left().len() == 0 }
    /// What a read of n bytes does: all n bytes are consumed in order, or the end of the stream is signalled.
    pub open spec fn advanced(&self, n: nat, f: &DataStream<R>) -> bool {
        &&& f.wf()
        &&& self.failed() ==> f.failed()
        &&& f.left().len() <= self.left().len()
        &&& !f.failed() ==> f.num_bytes_read == self.num_bytes_read + n
        &&& !f.failed() && n <= self.left().len() ==> f.left() == self.left().skip(n as int) && f.eof == self.eof
        &&& !f.failed() && n > self.left().len() ==> f.left().len() == 0 && f.eof
    }
@@ fn datastream::DataStream::new
@ spec
    ensures /*@[C01]*/ r.left() == $1.stream() && r.failed() == $1.failed() && r.wf() && r.num_bytes_read == 0 && !r.eof,
@@ fn datastream::DataStream::read_exact
@ spec
    requires old(self).wf(), old(self).num_bytes_read + old($1)@.len() <= usize::MAX,
    ensures final($1)@.len() == old($1)@.len(),
        /*@[C01,C02]*/ old(self).advanced(old($1)@.len(), final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old($1)@.len() <= old(self).left().len() ==> final($1)@ == old(self).left().take(old($1)@.len() as int),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + old($1)@.len(),
@@ fn datastream::DataStream::skip
@ external
@ drop
    public helper that the parser does not use; not part of any listed property
@@ fn datastream::DataStream::read_u8
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 1 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(1, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 1 ==> r->Ok_0 as nat == un(old(self).left().take(1)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 1,
@ prologue
    proof { if old(self).left().len() >= 1 { let b = old(self).left().take(1); un_small(b); assert(b.take(1) =~= b); } }
@@ fn datastream::DataStream::read_u16
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 2 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(2, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 2 ==> r->Ok_0 as nat == un(old(self).left().take(2)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 2,
@ prologue
    proof { if old(self).left().len() >= 2 { let b = old(self).left().take(2); un_small(b); assert(b.take(2) =~= b); } }
@@ fn datastream::DataStream::read_u32
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 4 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(4, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 4 ==> r->Ok_0 as nat == un(old(self).left().take(4)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 4,
@ prologue
    proof { if old(self).left().len() >= 4 { let b = old(self).left().take(4); un_small(b); assert(b.take(4) =~= b); } }
@@ fn datastream::DataStream::read_u64
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 8 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(8, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 8 ==> r->Ok_0 as nat == un(old(self).left().take(8)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 8,
@ prologue
    proof { if old(self).left().len() >= 8 { let b = old(self).left().take(8); un_small(b); assert(b.take(8) =~= b); } }
@@ fn datastream::DataStream::read_i8
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 1 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(1, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 1 ==> i8n(r->Ok_0) == un(old(self).left().take(1)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 1,
@ prologue
    proof { if old(self).left().len() >= 1 { let b = old(self).left().take(1); un_small(b); assert(b.take(1) =~= b); } }
    broadcast use i8_cast;
@@ fn datastream::DataStream::read_i16
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 2 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(2, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 2 ==> i16n(r->Ok_0) == un(old(self).left().take(2)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 2,
@ prologue
    proof { if old(self).left().len() >= 2 { let b = old(self).left().take(2); un_small(b); assert(b.take(2) =~= b); } }
@@ fn datastream::DataStream::read_i32
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 4 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(4, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 4 ==> i32n(r->Ok_0) == un(old(self).left().take(4)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 4,
@ prologue
    proof { if old(self).left().len() >= 4 { let b = old(self).left().take(4); un_small(b); assert(b.take(4) =~= b); } }
@@ fn datastream::DataStream::read_f32
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 4 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(4, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 4 ==> f32n(r->Ok_0) as nat == un(old(self).left().take(4)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 4,
@ prologue
    proof { if old(self).left().len() >= 4 { let b = old(self).left().take(4); un_small(b); assert(b.take(4) =~= b); } }
@@ fn datastream::DataStream::read_f64
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 8 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(8, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 8 ==> f64n(r->Ok_0) as nat == un(old(self).left().take(8)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 8,
@ prologue
    proof { if old(self).left().len() >= 8 { let b = old(self).left().take(8); un_small(b); assert(b.take(8) =~= b); } }
@@ fn datastream::DataStream::read_bool
@ spec
    requires old(self).wf(), old(self).num_bytes_read + 1 <= usize::MAX,
    ensures /*@[C01,C02]*/ old(self).advanced(1, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ !final(self).failed() ==> r is Ok,
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= 1 ==> r->Ok_0 == (old(self).left()[0] != 0),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + 1,
@ prologue
    proof { if old(self).left().len() >= 1 { let b = old(self).left().take(1); un_small(b); assert(b.take(1) =~= b); } }
@@ fn datastream::DataStream::read_string
@ spec
    requires old(self).wf(), old(self).num_bytes_read + $1 <= usize::MAX, $1 <= msg_max(),
    ensures /*@[C01,C02]*/ old(self).advanced($1 as nat, final(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= $1 ==> (r is Ok <==> utf8_ok(old(self).left().take($1 as int))),
        /*@[C01,C04]*/ !final(self).failed() && old(self).left().len() >= $1 && r is Ok ==> r->Ok_0@ == chars_of(old(self).left().take($1 as int)),
        /*@[C03]*/ final(self).num_bytes_read <= old(self).num_bytes_read + $1,
