@@ module encode
@ items
/// What a user writes to copy a log; verified over the contracts of the parser and of the encoder.
pub mod copy {
    use vstd::prelude::*;
    use crate::prelude::*;
    use crate::ulog::*;
    use crate::roundtrip::*;
    use crate::encode::Encode;
    use crate::parser::{ULogParser, kk};
    use crate::builder::ULogParserBuilder;
    use crate::model::msg::v_msg;
    use crate::xstd::io::{Read, Write};
    use crate::message_buf::MessageBuf;
    use crate::model::def;
    use crate::formats::parse_format;
    verus! {
    /// A parser with everything included, before the header or between two messages of a well-formed log.
    pub open spec fn ready<R: Read>(p: &ULogParser<R>) -> bool {
        &&& p.wf() && p.include_header && p.include_timestamp && p.include_padding && p.allow() is None && !p.failed()
        &&& p.state is HEADER ==> good_log(p.left(), kk()) && p.st() == (SSt { read: 0, ..st0() })
        &&& !(p.state is HEADER) ==> p.between() && good_msgs(p.st(), p.left(), kk())
    }
    /// A step writes what it reads, or is at the end.
    fn one<R: Read, W: Write>(p: &mut ULogParser<R>, w: &mut W) -> (r: Result<bool, ()>)
        requires ready(old(p)), old(w).sound(), old(p).datastream.num_bytes_read + 65535 + 19 <= usize::MAX,
        ensures
            final(w).sound(),
            !final(p).failed() ==> r is Ok,
            r is Ok ==> !final(p).failed(),
            r == Ok::<bool, ()>(false) ==> *final(w) == *old(w) && final(p).max_bytes_to_read == old(p).max_bytes_to_read && at_end(old(p).st(), old(p).left()),
            r == Ok::<bool, ()>(true) ==> ready(final(p)) && final(p).left().len() < old(p).left().len(),
            r == Ok::<bool, ()>(true) ==> exists|x: Seq<u8>| #[trigger] (x + final(p).left()) == old(p).left() && final(w).written() == old(w).written() + x
                && final(p).datastream.num_bytes_read == old(p).datastream.num_bytes_read + x.len(),
    {
        hide(st_want); hide(want_def); hide(want_data); hide(plain); hide(msg_fits); hide(dec_sub); hide(dec_flags); hide(new_limit); hide(p_format);
        let ghost b = p.left();
        let ghost s = p.st();
        let ghost hdr = p.state is HEADER;
        proof {
            if hdr { header_back(b); }
            else if !at_end(s, b) { assert(p.whole()); assert(p.body() == body_of(b)); one_back(s, b, kk()); wants(p); }
        }
        match p.next() {
            None => Ok(false),
            Some(Ok(m)) => {
                proof { assert(b == frame(v_msg(m)) + p.left()); }
                if m.encode(w).is_ok() { Ok(true) } else { Err(()) }
            }
            Some(Err(_)) => Err(()),
        }
    }
    proof fn wants<R: Read>(p: &ULogParser<R>)
        requires p.include_timestamp, p.include_padding, p.allow() is None, p.between(), p.whole()
        ensures p.wants() == st_want(p.st(), p.ty(), p.body(), kk())
    { if st_want(p.st(), p.ty(), p.body(), kk()) is Some { filtered_all(st_want(p.st(), p.ty(), p.body(), kk())->Some_0); } }
    pub open spec fn parts(all: Seq<u8>, done: Seq<u8>, rest: Seq<u8>) -> bool { all == done + rest }
    /// What was written is what was read, up to the end or the appended data.
    pub open spec fn copied(all: Seq<u8>, limit: Option<usize>, before: Seq<u8>, after: Seq<u8>) -> bool {
        exists|done: Seq<u8>, rest: Seq<u8>| #[trigger] parts(all, done, rest) && after == before + done && (rest.len() == 0 || (limit is Some && done.len() >= limit->Some_0))
    }
    /// C05: what is written is exactly what was consumed, up to the end of the log or the appended data.
    pub fn copy<R: Read, W: Write>(p: &mut ULogParser<R>, w: &mut W) -> (r: bool)
        requires ready(old(p)), old(p).datastream.num_bytes_read == 0, old(p).left().len() + 65535 + 19 <= usize::MAX, old(w).sound(),
        ensures
            !final(p).failed() ==> r,
            /*@[C05]*/ !final(p).failed() ==> copied(old(p).left(), final(p).max_bytes_to_read, old(w).written(), final(w).written()),
    {
        let ghost all = p.left();
        let ghost before = w.written();
        let ghost mut done = Seq::<u8>::empty();
        proof { assert(before + done =~= before); assert(done + all =~= all); }
        loop
            invariant
                all.len() + 65535 + 19 <= usize::MAX, w.sound(), all == old(p).left(), before == old(w).written(),
                ready(p), w.written() == before + done, parts(all, done, p.left()), p.datastream.num_bytes_read == done.len(),
            decreases p.left().len()
        {
            let ghost b = p.left();
            let ghost s = p.st();
            let ghost had = w.written();
            let ghost n = p.datastream.num_bytes_read;
            match one(p, w) {
                Ok(false) => { proof { assert(parts(all, done, b)); } return true; }
                Ok(true) => {
                    proof {
                        let x = choose|x: Seq<u8>| #[trigger] (x + p.left()) == b && w.written() == had + x && p.datastream.num_bytes_read == n + x.len();
                        assert((before + done) + x =~= before + (done + x));
                        assert(done + (x + p.left()) =~= (done + x) + p.left());
                        done = done + x;
                    }
                }
                Err(_) => { return false; }
            }
        }
    }
    /// C05: a well-formed log without appended data is copied byte for byte.
    pub fn copy_log<R: Read>(reader: R, w: &mut Vec<u8>) -> (p: ULogParser<R>)
        requires good_log(reader.stream(), kk()), reader.stream().len() + 65535 + 19 <= usize::MAX, !reader.failed(), old(w)@.len() == 0,
        ensures
            /*@[C05]*/ !p.failed() && p.max_bytes_to_read is None ==> final(w)@ == reader.stream(),
    {
        let mut p = ULogParserBuilder::new(reader).include_header(true).include_timestamp(true).include_padding(true).build().unwrap();
        let ghost all = p.left();
        let ghost before = w@;
        let _ = copy(&mut p, w);
        proof {
            if !p.failed() && p.max_bytes_to_read is None {
                let (done, rest) = choose|done: Seq<u8>, rest: Seq<u8>| #[trigger] parts(all, done, rest) && w@ == before + done && rest.len() == 0;
                assert(done + rest =~= done);
                assert(before + done =~= done);
            }
        }
        p
    }
    /// C11: a definition that was parsed is encoded as a text that is parsed as the same definition.
    pub fn again(text: MessageBuf) -> (r: Option<(def::Format, def::Format)>)
        requires text.wf(),
        ensures
            /*@[C11]*/ r is Some <==> p_format(text.rem()) is Some,
            /*@[C11]*/ r is Some ==> r->Some_0.0.sv() == p_format(text.rem())->Some_0 && r->Some_0.1.sv() == r->Some_0.0.sv(),
    {
        let d = match parse_format(text) { Ok(d) => d, Err(_) => { return None; } };
        let mut w: Vec<u8> = Vec::new();
        let _ = d.encode(&mut w);
        proof { def_again(text.rem()); assert(w@ =~= enc_def(d.sv())); }
        match parse_format(MessageBuf::from_vec(w)) { Ok(e) => Some((d, e)), Err(_) => None }
    }
    } // verus!
}
