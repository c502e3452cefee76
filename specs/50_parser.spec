@@ item parser::ULogMessageType
@ drop-discriminants
@ derive
Debug, Copy, Clone
@@ item parser::State
@ drop-discriminants
@ derive
Debug, Copy, Clone, PartialEq, Eq, Structural
@@ module parser
@ items
use crate::ulog::*;
use crate::model::msg::v_msg;
use crate::model::inst::{v_format, v_field, v_value, v_arr, v_insts, v_insts_of, v_insts_is, v_arr_is, v_insts_push, v_arr_push};
broadcast use {v_insts_push, v_arr_push, v_insts_is, v_arr_is, un_le8};
use crate::xstd::collections::{set_list, set_list_is};
use crate::prelude::XIntoIterator as IntoIterator;
use crate::field_helpers::{fbs, fbs_is};
/// Nesting is limited, and the limit leaves room for real formats.
pub proof fn nesting_bounded() ensures /*@[C03,C04]*/ 16 <= MAX_NESTING_DEPTH <= 256 {}
pub open spec fn kk() -> int { MAX_NESTING_DEPTH as int }
/// A result is the message that is wanted, or an error if none is.
pub open spec fn res<E>(r: Result<UlogMessage, E>, w: Option<SMsg>) -> bool {
    match w { Some(m) => r is Ok && v_msg(r->Ok_0) == m, None => r is Err }
}
pub open spec fn rest<E>(r: Result<Option<UlogMessage>, E>, w: Option<SMsg>) -> bool {
    match w { Some(m) => r is Ok && r->Ok_0 is Some && v_msg(r->Ok_0->Some_0) == m, None => r is Err }
}
pub broadcast proof fn pbs_take(b: Seq<u8>, n: int) requires 0 <= n <= b.len() ensures #[trigger] pbs(b.take(n)) == Seq::new(n as nat, |i: int| seq![b[i]]) { assert(pbs(b.take(n)) =~= Seq::new(n as nat, |i: int| seq![b[i]])); }
pub proof fn bit0(b: u8) ensures (b & 1 != 0) == (b % 2 == 1) { assert((b & 1 != 0) == (b % 2 == 1)) by (bit_vector); }
pub proof fn magic_is() ensures MAGIC@ == magic() { assert(MAGIC@ =~= magic()); }
/// Filtering values is filtering what they mean.
pub proof fn v_insts_filter(s: Seq<inst::Field>, p: spec_fn(inst::Field) -> bool, q: spec_fn(SInst) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(v_field(s[i])),
    ensures v_insts(s.filter(p)) == v_insts(s).filter(q)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        v_insts_filter(t, p, q);
        assert(v_insts(s).drop_last() =~= v_insts(t));
        assert(v_insts(s).last() == v_field(s.last()));
        if p(s.last()) { v_insts_push(t.filter(p), s.last()); }
    } else {
        assert(v_insts(s.filter(p)) =~= v_insts(s).filter(q));
    }
}
/// The byte that stands for a message type.
pub open spec fn byte_of(t: ULogMessageType) -> u8 {
    match t {
        ULogMessageType::FORMAT => 0x46, ULogMessageType::DATA => 0x44, ULogMessageType::INFO => 0x49, ULogMessageType::INFO_MULTIPLE => 0x4d,
        ULogMessageType::PARAMETER => 0x50, ULogMessageType::PARAMETER_DEFAULT => 0x51, ULogMessageType::ADD_SUBSCRIPTION => 0x41,
        ULogMessageType::REMOVE_SUBSCRIPTION => 0x52, ULogMessageType::SYNC => 0x53, ULogMessageType::DROPOUT => 0x4f,
        ULogMessageType::LOGGING => 0x4c, ULogMessageType::LOGGING_TAGGED => 0x43, ULogMessageType::FLAG_BITS => 0x42,
        ULogMessageType::HEADER => 254, ULogMessageType::UNKNOWN(b) => b,
    }
}
pub open spec fn known_byte(b: u8) -> bool {
    b == 0x46 || b == 0x44 || b == 0x49 || b == 0x4d || b == 0x50 || b == 0x51 || b == 0x41 || b == 0x52 || b == 0x53 || b == 0x4f
        || b == 0x4c || b == 0x43 || b == 0x42
}
pub open spec fn type_of(b: u8) -> ULogMessageType {
    if b == 0x46 { ULogMessageType::FORMAT } else if b == 0x44 { ULogMessageType::DATA } else if b == 0x49 { ULogMessageType::INFO }
    else if b == 0x4d { ULogMessageType::INFO_MULTIPLE } else if b == 0x50 { ULogMessageType::PARAMETER } else if b == 0x51 { ULogMessageType::PARAMETER_DEFAULT }
    else if b == 0x41 { ULogMessageType::ADD_SUBSCRIPTION } else if b == 0x52 { ULogMessageType::REMOVE_SUBSCRIPTION } else if b == 0x53 { ULogMessageType::SYNC }
    else if b == 0x4f { ULogMessageType::DROPOUT } else if b == 0x4c { ULogMessageType::LOGGING } else if b == 0x43 { ULogMessageType::LOGGING_TAGGED }
    else if b == 0x42 { ULogMessageType::FLAG_BITS } else { ULogMessageType::UNKNOWN(b) }
}
/// A type that stands for a byte of the documented set, or an unknown byte.
pub open spec fn known_type(t: ULogMessageType) -> bool { type_of(byte_of(t)) == t }
/// C15: a byte survives the conversion to a type and back.
pub proof fn type_bytes(b: u8) ensures byte_of(type_of(b)) == b, known_type(type_of(b)), known_byte(b) <==> !(type_of(b) is UNKNOWN) {}
pub proof fn kinds(b: u8) ensures
    type_of(b) is FORMAT <==> b == 0x46, type_of(b) is DATA <==> b == 0x44, type_of(b) is ADD_SUBSCRIPTION <==> b == 0x41, type_of(b) is REMOVE_SUBSCRIPTION <==> b == 0x52,
    type_of(b) is FLAG_BITS <==> b == 0x42, byte_of(type_of(b)) == b, known_type(type_of(b)) {}
pub proof fn want_is(fs: Map<Seq<char>, SDef>, subs: Map<u16, SSub>, multi: Set<Seq<char>>, allow: Option<Set<Seq<char>>>, t: u8, b: Seq<u8>, k: int, pad: bool)
    ensures
        t == 0x41 ==> want_def(fs, t, b, k, pad) == (match dec_sub(fs, b) { None => None, Some(s) => Some(SMsg::Sub(s)) }),
        t == 0x41 ==> want_data(fs, subs, multi, allow, t, b, k, pad) == (match dec_sub(fs, b) { None => None, Some(s) => Some(SMsg::Sub(s)) }),
        t == 0x46 ==> want_def(fs, t, b, k, pad) == (match p_format(b) { None => None, Some(s) => Some(SMsg::Format(s)) }),
{}
impl vstd::std_specs::convert::FromSpecImpl<u8> for ULogMessageType { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u8) -> ULogMessageType { type_of(v) } }
impl vstd::std_specs::convert::FromSpecImpl<ULogMessageType> for u8 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ULogMessageType) -> u8 { byte_of(v) } }
impl XInto<u8> for ULogMessageType {
    open spec fn into_ok(self, r: u8) -> bool { r == byte_of(self) }
    fn x_into(self) -> (r: u8) { u8::from(self) }
}
@@ fn parser::<From<u8> for ULogMessageType>::from
@ tags
C15
@ spec
    ensures /*@[C15]*/ r == type_of($1),
@@ fn parser::<From<ULogMessageType> for u8>::from
@ tags
C15
@ spec
    ensures /*@[C15]*/ r == byte_of($1),

@@ item parser::SubscriptionFilter
@ after
impl SubscriptionFilter {
    pub open spec fn names(&self) -> Option<Set<Seq<char>>> { match self.allowed_subscription_names { Some(s) => Some(s.m()), None => None } }
    /// The ids are those of the subscriptions whose names are allowed.
    pub open spec fn wf(&self, subs: Map<u16, SSub>) -> bool {
        &&& self.allowed_subscription_names is Some <==> self.allowed_subscription_ids is Some
        &&& self.allowed_subscription_ids is Some ==> forall|id: u16| #[trigger] subs.contains_key(id) ==>
            (self.allowed_subscription_ids->Some_0.m().contains(id) <==> self.allowed_subscription_names->Some_0.m().contains(subs[id].name))
    }
    pub open spec fn allows(&self, id: u16) -> bool { self.allowed_subscription_ids is None || self.allowed_subscription_ids->Some_0.m().contains(id) }
}
pub open spec fn by_id(subs: Map<u16, SSub>) -> bool { forall|id: u16| #[trigger] subs.contains_key(id) ==> subs[id].msg_id == id }
@@ fn parser::<Default for SubscriptionFilter>::default
@ spec
    ensures /*@[C07]*/ r.names() is None && r.allowed_subscription_ids is None,
@@ fn parser::SubscriptionFilter::new
@ spec
    ensures /*@[C07]*/ r.names() == Some(svs($1.its()).to_set()) && r.allowed_subscription_ids is Some,
@@ fn parser::SubscriptionFilter::update_ids
@ spec
    requires old(self).allowed_subscription_names is Some <==> old(self).allowed_subscription_ids is Some,
    ensures
        final(self).names() == old(self).names(),
        /*@[C07]*/ forall|subs: Map<u16, SSub>| #![trigger final(self).wf(subs.insert($1.msg_id, $1.sv()))] old(self).wf(subs) ==> final(self).wf(subs.insert($1.msg_id, $1.sv())),
@@ fn parser::SubscriptionFilter::is_allowed
@ spec
    ensures /*@[C07]*/ r == self.allows($1),
@@ impl parser::<Iterator for ULogParser>
@ header
impl<R: Read> ULogParser<R>
@@ fn parser::<Iterator for ULogParser>::next
@ spec
    requires old(self).wf(), old(self).datastream.num_bytes_read + 65535 + 19 <= usize::MAX,
    ensures
        /*@[C07,C08]*/ final(self).wf(),
        /*@[C07,C09]*/ final(self).same_opts(old(self)),
        /*@[C01,C15]*/ !final(self).failed() && (old(self).in_def() || old(self).in_data()) ==> r is Some && res(r->Some_0, old(self).wants()),
        /*@[C01]*/ !final(self).failed() && old(self).whole() ==> final(self).left() == old(self).eff_left().skip(3 + old(self).size()),
        /*@[C02]*/ !final(self).failed() && old(self).starts() && old(self).eff_left().len() == 0 ==> r is None,
        /*@[C02]*/ !final(self).failed() && old(self).starts() && old(self).eff_left().len() < 2 ==> !(r is Some && r->Some_0 is Ok) && final(self).left().len() == 0,
        /*@[C02]*/ !final(self).failed() && old(self).starts() && old(self).eff_left().len() >= 2 && !old(self).whole() ==> r is Some && r->Some_0 is Err && final(self).left().len() == 0,
        /*@[C12]*/ !final(self).failed() && old(self).state is HEADER && !old(self).hdr_ok() ==> r is Some && r->Some_0 is Err && final(self).state is ERROR,
        /*@[C12]*/ !final(self).failed() && old(self).state is HEADER && old(self).hdr_ok() && old(self).include_header ==>
            r is Some && r->Some_0 is Ok && v_msg(r->Some_0->Ok_0) == (SMsg::Header { version: old(self).left()[7], timestamp: le_u64(old(self).left().skip(8)) }),
        /*@[C12]*/ old(self).state is EOF ==> r is None && final(self).state is EOF,
        /*@[C12]*/ r is None ==> final(self).state is EOF,
        /*@[C12]*/ old(self).state is ERROR ==> !(r is Some && r->Some_0 is Ok) && (final(self).state is ERROR || final(self).state is EOF),
        /*@[C10]*/ !final(self).failed() && old(self).limited() && !(old(self).state is EOF) && (old(self).state is HEADER ==> old(self).hdr_ok() && !old(self).include_header) ==>
            r is None && final(self).left() == old(self).eff_left(),
        /*@[C05]*/ !final(self).failed() && old(self).state is HEADER && old(self).hdr_ok() && old(self).include_header ==>
            final(self).between() && final(self).left() == old(self).left().skip(16) && final(self).st() == (crate::roundtrip::SSt { data: false, read: old(self).st().read + 16, ..old(self).st() }),
        /*@[C05]*/ !final(self).failed() && old(self).between() && old(self).whole() ==>
            final(self).between() && final(self).st() == crate::roundtrip::st_step(old(self).st(), old(self).ty(), old(self).body()),
        /*@[C05]*/ !final(self).failed() && !old(self).in_def() ==> final(self).max_bytes_to_read == old(self).max_bytes_to_read,
        /*@[C02]*/ old(self).failed() ==> final(self).failed(),
        /*@[C02]*/ (r is None || r->Some_0 is Ok) && !old(self).failed() ==> !final(self).failed(),
@@ item parser::ULogParser
@ after
impl<R: Read> ULogParser<R> {
    pub open spec fn fs(&self) -> Map<Seq<char>, SDef> { self.formats.m() }
    pub open spec fn subs(&self) -> Map<u16, SSub> { self.subscriptions.m() }
    pub open spec fn multi(&self) -> Set<Seq<char>> { self.message_name_with_multi_id.m() }
    pub open spec fn allow(&self) -> Option<Set<Seq<char>>> { self.subscription_filter.names() }
    pub open spec fn left(&self) -> Seq<u8> { self.datastream.left() }
    pub open spec fn failed(&self) -> bool { self.datastream.failed() }
    pub open spec fn wf(&self) -> bool { self.datastream.wf() && self.subscription_filter.wf(self.subs()) && by_id(self.subs()) }
    pub open spec fn allowed(&self, id: u16) -> bool { self.allow() is None || self.allow()->Some_0.contains(self.subs()[id].name) }
    pub open spec fn same_opts(&self, o: &Self) -> bool {
        self.include_header == o.include_header && self.include_timestamp == o.include_timestamp && self.include_padding == o.include_padding && self.allow() == o.allow()
    }
    pub open spec fn same_tables(&self, o: &Self) -> bool {
        self.fs() == o.fs() && self.subs() == o.subs() && self.multi() == o.multi() && self.max_bytes_to_read == o.max_bytes_to_read
    }
    pub open spec fn hdr_ok(&self) -> bool { self.left().len() >= 16 && self.left().take(7) == magic() }
    /// The step goes on to read a message: from where, in which phase, after how many bytes.
    pub open spec fn starts(&self) -> bool {
        &&& !(self.state is EOF)
        &&& self.state is HEADER ==> self.hdr_ok() && !self.include_header
        &&& !self.limited()
    }
    pub open spec fn eff_left(&self) -> Seq<u8> { if self.state is HEADER { self.left().skip(16) } else { self.left() } }
    pub open spec fn eff_state(&self) -> State { if self.state is HEADER { State::DEFINITIONS } else { self.state } }
    pub open spec fn eff_read(&self) -> int { self.datastream.num_bytes_read + if self.state is HEADER { 16int } else { 0 } }
    pub open spec fn limited(&self) -> bool { self.max_bytes_to_read is Some && self.eff_read() >= self.max_bytes_to_read->Some_0 }
    pub open spec fn size(&self) -> int { un(self.eff_left().take(2)) as int }
    pub open spec fn whole(&self) -> bool { self.starts() && self.eff_left().len() >= 3 && self.eff_left().len() >= 3 + self.size() }
    pub open spec fn ty(&self) -> u8 { self.eff_left()[2] }
    pub open spec fn body(&self) -> Seq<u8> { self.eff_left().skip(3).take(self.size()) }
    pub open spec fn wants(&self) -> Option<SMsg> {
        match self.eff_state() {
            State::DEFINITIONS => want_def(self.fs(), self.ty(), self.body(), kk(), self.include_padding),
            State::DATA => match want_data(self.fs(), self.subs(), self.multi(), self.allow(), self.ty(), self.body(), kk(), self.include_padding) {
                None => None, Some(m) => if self.ty() == 0x44 { Some(filtered(m, self.include_timestamp, self.include_padding)) } else { Some(m) } },
            _ => None,
        }
    }
    /// Between two messages.
    pub open spec fn between(&self) -> bool { self.state is DEFINITIONS || self.state is DATA }
    pub open spec fn st(&self) -> crate::roundtrip::SSt {
        crate::roundtrip::SSt { fs: self.fs(), subs: self.subs(), multi: self.multi(), limit: self.max_bytes_to_read, data: self.state is DATA, read: self.datastream.num_bytes_read as int }
    }
    pub open spec fn in_def(&self) -> bool { self.whole() && self.eff_state() is DEFINITIONS }
    pub open spec fn in_data(&self) -> bool { self.whole() && self.eff_state() is DATA }
}
@@ fn parser::ULogParser::new
@ spec
    ensures
        /*@[C01,C12]*/ r is Ok && r->Ok_0.left() == $1.stream() && r->Ok_0.failed() == $1.failed() && r->Ok_0.datastream.num_bytes_read == 0 && r->Ok_0.state is HEADER && r->Ok_0.wf(),
        /*@[C07,C09,C10,C12]*/ r is Ok && r->Ok_0.max_bytes_to_read is None && r->Ok_0.allow() is None && !r->Ok_0.include_header && !r->Ok_0.include_timestamp && !r->Ok_0.include_padding,
        /*@[C08,C19]*/ r is Ok && r->Ok_0.fs() == Map::<Seq<char>, SDef>::empty() && r->Ok_0.subs() == Map::<u16, SSub>::empty() && r->Ok_0.multi() == Set::<Seq<char>>::empty(),
@@ fn parser::ULogParser::set_allowed_subscription_names
@ spec
    requires old(self).wf(), old(self).subs() == Map::<u16, SSub>::empty(),
    ensures final(self).wf(), /*@[C07]*/ final(self).allow() == Some(svs($1.its()).to_set()),
        final(self).same_tables(old(self)), final(self).datastream == old(self).datastream, final(self).state == old(self).state,
        final(self).include_header == old(self).include_header && final(self).include_timestamp == old(self).include_timestamp && final(self).include_padding == old(self).include_padding,
@@ fn parser::ULogParser::set_subscription_allow_list
@ spec
    requires old(self).wf(), old(self).subs() == Map::<u16, SSub>::empty(),
    ensures final(self).wf(), /*@[C07]*/ final(self).allow() == Some($1.m()),
        final(self).same_tables(old(self)), final(self).datastream == old(self).datastream, final(self).state == old(self).state,
        final(self).include_header == old(self).include_header && final(self).include_timestamp == old(self).include_timestamp && final(self).include_padding == old(self).include_padding,
@ prologue
    broadcast use {set_list_is};
@@ fn parser::ULogParser::get_format
@ spec
    ensures /*@[C04,C08]*/ r is Ok <==> self.fs().contains_key($1@), r is Ok ==> r->Ok_0.sv() == self.fs()[$1@],
@@ fn parser::ULogParser::get_subscription
@ spec
    ensures /*@[C08]*/ r is Ok <==> self.subs().contains_key($1), r is Ok ==> r->Ok_0.sv() == self.subs()[$1],
@@ fn parser::ULogParser::read_message
@ spec
    requires old(self).wf(), old(self).datastream.num_bytes_read + $1 <= usize::MAX, $1 <= msg_max(),
    ensures final(self).wf(), final(self).same_opts(old(self)), final(self).same_tables(old(self)), final(self).state == old(self).state,
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C02]*/ old(self).datastream.advanced($1 as nat, &final(self).datastream),
        /*@[C02]*/ !final(self).failed() ==> (r is Ok <==> !old(self).datastream.eof && $1 <= old(self).left().len()),
        /*@[C01,C04]*/ r is Ok ==> r->Ok_0.wf() && (!final(self).failed() ==> r->Ok_0.rem() == old(self).left().take($1 as int)) && r->Ok_0.rem().len() == $1,
        /*@[C03]*/ final(self).datastream.num_bytes_read <= old(self).datastream.num_bytes_read + $1,
@@ fn parser::ULogParser::next_sub
@ attr
#[verifier::spinoff_prover]
#[verifier::rlimit(200)]
@ spec
    requires old(self).wf(), old(self).datastream.num_bytes_read + 65535 + 19 <= usize::MAX,
    ensures
        /*@[C07,C08]*/ final(self).wf(),
        /*@[C07,C09]*/ final(self).same_opts(old(self)),
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C02]*/ old(self).failed() ==> final(self).failed(),
        // the header
        /*@[C12]*/ !final(self).failed() && old(self).state is HEADER && !old(self).hdr_ok() ==> r is Err && final(self).state is ERROR,
        /*@[C12]*/ !final(self).failed() && old(self).state is HEADER && old(self).hdr_ok() && old(self).include_header ==>
            r is Ok && r->Ok_0 is Some && v_msg(r->Ok_0->Some_0) == (SMsg::Header { version: old(self).left()[7], timestamp: le_u64(old(self).left().skip(8)) })
            && final(self).state is DEFINITIONS && final(self).left() == old(self).left().skip(16)
            && final(self).datastream.num_bytes_read == old(self).datastream.num_bytes_read + 16 && final(self).same_tables(old(self)),
        /*@[C12]*/ old(self).state is EOF ==> r is Ok && r->Ok_0 is None && final(self).state is EOF,
        /*@[C12]*/ r is Ok && r->Ok_0 is None ==> final(self).state is EOF,
        /*@[C12]*/ old(self).state is ERROR ==> !(r is Ok && r->Ok_0 is Some) && (final(self).state is ERROR || final(self).state is EOF),
        /*@[C12]*/ !final(self).failed() && old(self).in_def() ==> final(self).state == if old(self).ty() == 0x41 && dec_sub(old(self).fs(), old(self).body()) is Some { State::DATA } else { State::DEFINITIONS },
        /*@[C12]*/ !final(self).failed() && old(self).in_data() ==> final(self).state is DATA,
        // where a message ends, and where the input does
        /*@[C10]*/ !final(self).failed() && old(self).limited() && !(old(self).state is EOF) && (old(self).state is HEADER ==> old(self).hdr_ok() && !old(self).include_header) ==>
            r is Ok && r->Ok_0 is None && final(self).left() == old(self).eff_left(),
        /*@[C01]*/ !final(self).failed() && old(self).whole() ==> final(self).left() == old(self).eff_left().skip(3 + old(self).size()),
        /*@[C10]*/ !final(self).failed() && old(self).whole() ==> final(self).datastream.num_bytes_read == old(self).eff_read() + 3 + old(self).size(),
        /*@[C02]*/ !final(self).failed() && old(self).starts() && old(self).eff_left().len() == 0 ==> r is Ok && r->Ok_0 is None,
        /*@[C02]*/ !final(self).failed() && old(self).starts() && old(self).eff_left().len() < 2 ==> !(r is Ok && r->Ok_0 is Some) && final(self).left().len() == 0,
        /*@[C02]*/ !final(self).failed() && old(self).starts() && old(self).eff_left().len() >= 2 && !old(self).whole() ==> r is Err && final(self).left().len() == 0,
        // tables
        /*@[C11,C12]*/ !final(self).failed() && old(self).in_def() ==> final(self).fs() == if old(self).ty() == 0x46 && p_format(old(self).body()) is Some {
            old(self).fs().insert(p_format(old(self).body())->Some_0.name, p_format(old(self).body())->Some_0) } else { old(self).fs() },
        /*@[C12]*/ !final(self).failed() && !old(self).in_def() ==> final(self).fs() == old(self).fs(),
        /*@[C08]*/ !final(self).failed() && (old(self).in_def() || old(self).in_data()) ==> final(self).subs() ==
            if old(self).ty() == 0x41 && dec_sub(old(self).fs(), old(self).body()) is Some {
                old(self).subs().insert(dec_sub(old(self).fs(), old(self).body())->Some_0.msg_id, dec_sub(old(self).fs(), old(self).body())->Some_0)
            } else if old(self).in_data() && old(self).ty() == 0x52 && old(self).body().len() >= 2 { old(self).subs().remove(le_u16(old(self).body())) } else { old(self).subs() },
        /*@[C19]*/ !final(self).failed() && (old(self).in_def() || old(self).in_data()) ==> final(self).multi() ==
            if old(self).ty() == 0x41 && dec_sub(old(self).fs(), old(self).body()) is Some && dec_sub(old(self).fs(), old(self).body())->Some_0.multi_id > 0 {
                old(self).multi().insert(dec_sub(old(self).fs(), old(self).body())->Some_0.name) } else { old(self).multi() },
        /*@[C10]*/ !final(self).failed() && old(self).in_def() ==> final(self).max_bytes_to_read == if old(self).ty() == 0x42 && dec_flags(old(self).body()) is Some {
            new_limit(dec_flags(old(self).body())->Some_0, old(self).max_bytes_to_read) } else { old(self).max_bytes_to_read },
        /*@[C10]*/ !final(self).failed() && !old(self).in_def() ==> final(self).max_bytes_to_read == old(self).max_bytes_to_read,
        // messages
        /*@[C10]*/ !final(self).failed() && old(self).in_def() && old(self).ty() == 0x42 ==> rest(r, old(self).wants()),
        /*@[C11]*/ !final(self).failed() && old(self).in_def() && old(self).ty() == 0x46 ==> rest(r, old(self).wants()),
        /*@[C08]*/ !final(self).failed() && (old(self).in_def() || old(self).in_data()) && old(self).ty() == 0x41 ==> rest(r, old(self).wants()),
        /*@[C17]*/ !final(self).failed() && (old(self).in_def() || old(self).in_data()) && is_key_msg(old(self).ty()) ==> rest(r, old(self).wants()),
        /*@[C18]*/ !final(self).failed() && old(self).in_data() && is_log_msg(old(self).ty()) ==> rest(r, old(self).wants()),
        /*@[C04,C07,C08,C09,C19]*/ !final(self).failed() && old(self).in_data() && old(self).ty() == 0x44 ==> rest(r, old(self).wants()),
        /*@[C15]*/ !final(self).failed() && (old(self).in_def() || old(self).in_data()) ==> rest(r, old(self).wants()),
@ prologue
    hide(dec_flags); hide(dec_info); hide(dec_multi_info); hide(dec_param); hide(dec_def_param); hide(dec_log); hide(dec_tagged); hide(dec_dropout); hide(dec_data); hide(dec_sub); hide(p_format); hide(new_limit); hide(le_u64);
    hide(want_def); hide(want_data); hide(type_of); hide(byte_of); hide(known_type);
    broadcast use {seq_skip_skip};
    proof { if old(self).eff_left().len() >= 3 { kinds(old(self).ty()); want_is(old(self).fs(), old(self).subs(), old(self).multi(), old(self).allow(), old(self).ty(), old(self).body(), kk(), old(self).include_padding); } }
@@ fn parser::ULogParser::parse_data
@ attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
@ spec
    requires old(self).wf(), $2.wf(), $2.rem().len() <= msg_max(),
    ensures
        /*@[C07,C08]*/ final(self).wf(),
        /*@[C07,C09]*/ final(self).same_opts(old(self)),
        /*@[C01,C02]*/ final(self).datastream == old(self).datastream,
        /*@[C12]*/ final(self).state == old(self).state,
        /*@[C10]*/ final(self).max_bytes_to_read == old(self).max_bytes_to_read,
        /*@[C12]*/ final(self).fs() == old(self).fs(),
        /*@[C19]*/ final(self).multi() == old(self).multi(),
        /*@[C07]*/ final(self).subscription_filter == old(self).subscription_filter,
        /*@[C08]*/ final(self).subs() == if $1 is REMOVE_SUBSCRIPTION && $2.rem().len() >= 2 { old(self).subs().remove(le_u16($2.rem())) } else { old(self).subs() },
        /*@[C08]*/ $1 is ADD_SUBSCRIPTION ==> match dec_sub(old(self).fs(), $2.rem()) { None => r is Err, Some(x) => r is Ok && v_msg(r->Ok_0) == SMsg::Sub(x) },
        /*@[C17]*/ $1 is INFO ==> res(r, dec_info(old(self).fs(), $2.rem(), kk(), old(self).include_padding)),
        /*@[C17]*/ $1 is INFO_MULTIPLE ==> res(r, dec_multi_info(old(self).fs(), $2.rem(), kk(), old(self).include_padding)),
        /*@[C17]*/ $1 is PARAMETER ==> res(r, dec_param($2.rem())),
        /*@[C17]*/ $1 is PARAMETER_DEFAULT ==> res(r, dec_def_param($2.rem())),
        /*@[C18]*/ $1 is LOGGING ==> res(r, dec_log($2.rem())),
        /*@[C18]*/ $1 is LOGGING_TAGGED ==> res(r, dec_tagged($2.rem())),
        /*@[C18]*/ $1 is DROPOUT ==> res(r, dec_dropout($2.rem())),
        /*@[C08]*/ $1 is DATA && $2.rem().len() < 2 ==> r is Err,
        /*@[C08]*/ $1 is DATA && $2.rem().len() >= 2 && !old(self).subs().contains_key(le_u16($2.rem())) ==> r is Err,
        /*@[C07]*/ $1 is DATA && $2.rem().len() >= 2 && old(self).subs().contains_key(le_u16($2.rem())) && !old(self).allowed(le_u16($2.rem())) ==>
            r is Ok && v_msg(r->Ok_0) == (SMsg::Ignored { code: 0x44 }),
        /*@[C04,C07,C08]*/ $1 is DATA && $2.rem().len() >= 2 && old(self).subs().contains_key(le_u16($2.rem())) && old(self).allowed(le_u16($2.rem())) ==>
            res(r, dec_data(old(self).fs(), old(self).multi(), old(self).subs()[le_u16($2.rem())], $2.rem().skip(2), kk(), old(self).include_padding)),
        /*@[C08]*/ $1 is REMOVE_SUBSCRIPTION && $2.rem().len() < 2 ==> r is Err,
        /*@[C05,C15]*/ $1 is REMOVE_SUBSCRIPTION && $2.rem().len() >= 2 ==> r is Ok && v_msg(r->Ok_0) == unhandled(byte_of($1), $2.rem()),
        /*@[C15]*/ ($1 is FLAG_BITS || $1 is FORMAT || $1 is SYNC || $1 is HEADER || $1 is UNKNOWN) ==> r is Ok && v_msg(r->Ok_0) == unhandled(byte_of($1), $2.rem()),
        /*@[C15]*/ known_type($1) ==> res(r, want_data(old(self).fs(), old(self).subs(), old(self).multi(), old(self).allow(), byte_of($1), $2.rem(), kk(), old(self).include_padding)),
        /*@[C15]*/ r is Ok && r->Ok_0 is LoggedData ==> $1 is DATA,
        /*@[C15]*/ r is Ok ==> (r->Ok_0 is AddSubscription <==> $1 is ADD_SUBSCRIPTION),
@ prologue
    broadcast use {svs_u8, seq_skip_skip};
    proof { let b = $2.rem(); if b.len() >= 11 { un_bounds(b.take(2)); un_bounds(b.skip(1).take(8)); un_bounds(b.skip(1).take(2)); un_bounds(b.skip(3).take(8)); } if b.len() >= 2 { un_bounds(b.take(2)); } if b.len() >= 1 { un_small(b.take(1)); } if b.len() >= 9 { un_bounds(b.skip(1).take(8)); } if b.len() >= 3 { un_bounds(b.skip(1).take(2)); } }
@@ fn parser::ULogParser::parse_subscription
@ spec
    requires $1.wf(),
    ensures /*@[C08]*/ match dec_sub(self.fs(), $1.rem()) { Some(s) => r is Ok && r->Ok_0.sv() == s, None => r is Err },
@ prologue
    broadcast use {seq_skip_skip};
    proof { let b = $1.rem(); if b.len() >= 3 { un_small(b.take(1)); un_bounds(b.skip(1).take(2)); } }
@@ fn parser::ULogParser::read_message_header
@ spec
    requires old(self).wf(), old(self).datastream.num_bytes_read + 3 <= usize::MAX,
    ensures final(self).wf(), final(self).same_opts(old(self)), final(self).same_tables(old(self)), final(self).state == old(self).state,
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        old(self).failed() ==> final(self).failed(),
        /*@[C02]*/ !final(self).failed() && old(self).left().len() < 2 ==> r is Ok && r->Ok_0 is None && final(self).left().len() == 0,
        /*@[C02]*/ !final(self).failed() && old(self).left().len() == 2 ==> r is Err && final(self).left().len() == 0,
        /*@[C01]*/ !final(self).failed() && old(self).left().len() >= 3 ==> r is Ok && r->Ok_0 is Some && final(self).left() == old(self).left().skip(3)
            && final(self).datastream.num_bytes_read == old(self).datastream.num_bytes_read + 3 && final(self).datastream.eof == old(self).datastream.eof,
        /*@[C01]*/ !final(self).failed() && old(self).left().len() >= 3 && r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0.msg_size == un(old(self).left().take(2)),
        /*@[C15]*/ !final(self).failed() && old(self).left().len() >= 3 && r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0.msg_type == type_of(old(self).left()[2]),
        /*@[C03]*/ final(self).datastream.num_bytes_read <= old(self).datastream.num_bytes_read + 3,
@ prologue
    broadcast use {seq_skip_skip};
    proof { let b = old(self).left(); if b.len() >= 3 { un_small(b.skip(2).take(1)); } }
@@ fn parser::ULogParser::parse_data_message
@ spec
    requires $2.wf(), $2.rem().len() <= msg_max(),
    ensures
        /*@[C04]*/ r is Ok <==> dec_data(self.fs(), self.multi(), $1.sv(), $2.rem(), kk(), self.include_padding) is Some,
        /*@[C08]*/ r is Ok ==> r->Ok_0.msg_id == $1.msg_id,
        /*@[C09]*/ r is Ok ==> Some(r->Ok_0.timestamp) == dec_fmt(self.fs(), self.fs()[$1.message_name@], $2.rem(), kk(), self.include_padding)->Some_0.0.ts,
        /*@[C19]*/ r is Ok ==> r->Ok_0.data.multi_id_index == if self.multi().contains($1.message_name@) { Some($1.multi_id) } else { None },
        /*@[C04]*/ r is Ok ==> r->Ok_0.v() == dec_data(self.fs(), self.multi(), $1.sv(), $2.rem(), kk(), self.include_padding)->Some_0,
@ prologue
    proof { if self.fs().contains_key($1.message_name@) { let d = self.fs()[$1.message_name@];
        if forall|i: int| 0 <= i < d.fields.len() ==> (#[trigger] d.fields[i]).name != ts_name() { dec_fields_ts(self.fs(), d.fields, d.fields.len(), $2.rem(), kk(), self.include_padding); } } }
@ closure 0
    |$p0: &def::Field| -> (b: bool) ensures /*@[C04,C09]*/ b == ($p0.name@ == ts_name())
@@ fn parser::ULogParser::parse_data_message_sub
@ tags
C04
@ spec
    requires old($2).wf(), old($2).rem().len() <= msg_max(), $3 <= MAX_NESTING_DEPTH + 1,
    ensures final($2).wf(), r is Ok ==> final($2).rem().len() <= old($2).rem().len(),
        /*@[C04,C17]*/ (match dec_fmt(self.fs(), $1.sv(), old($2).rem(), kk() - $3, self.include_padding) {
            Some((f, rest)) => r is Ok && r->Ok_0.sv() == f && final($2).rem() == rest,
            None => r is Err,
        }),
    decreases MAX_NESTING_DEPTH + 1 - $3, 2int,
@ loop 0
    invariant
        $2.wf(), old($2).rem().len() <= msg_max(), $2.rem().len() <= old($2).rem().len(), $3 <= MAX_NESTING_DEPTH,
        dec_fields(self.fs(), $1.sv().fields, it0.index@ as nat, old($2).rem(), kk() - $3, self.include_padding) == Some((v_insts($mut0@), $mut1, $2.rem())),
@ loopbody 0
    proof { let fl = $1.sv().fields; if dec_fields(self.fs(), fl, (it0.index@ + 1) as nat, old($2).rem(), kk() - $3, self.include_padding) is None { dec_fields_none(self.fs(), fl, (it0.index@ + 1) as nat, fl.len(), old($2).rem(), kk() - $3, self.include_padding); } }
@@ fn parser::ULogParser::parse_padding
@ spec
    requires old($2).wf(), old($2).rem().len() <= msg_max(),
    ensures final($2).wf(),
        /*@[C04]*/ r is Ok && final($2).rem() == dec_pad($1.sv(), old($2).rem(), self.include_padding).1,
        /*@[C04,C09]*/ r is Ok ==> match dec_pad($1.sv(), old($2).rem(), self.include_padding).0 { Some(i) => r->Ok_0 is Some && r->Ok_0->Some_0.sv() == i, None => r->Ok_0 is None },
@ prologue
    proof { if $1.r#type.array_size is Some && $1.r#type.array_size->Some_0 <= $2.rem().len() { pbs_take($2.rem(), $1.r#type.array_size->Some_0 as int); } }
@@ fn parser::ULogParser::parse_field_value
@ tags
C04 C17
@ spec
    requires old($2).wf(), old($2).rem().len() <= msg_max(), $3 <= MAX_NESTING_DEPTH,
    ensures final($2).wf(), r is Ok ==> final($2).rem().len() <= old($2).rem().len(),
        /*@[C04,C17]*/ (match dec_val(self.fs(), $1.r#type.sv(), old($2).rem(), kk() - $3, self.include_padding) {
            Some((v, rest)) => r is Ok && r->Ok_0.sv() == v && final($2).rem() == rest,
            None => r is Err,
        }),
    decreases MAX_NESTING_DEPTH + 1 - $3, 1int,
@ prologue
    broadcast use {le_un, crate::field_helpers::le_un1};
    proof { if old($2).rem().len() >= 1 { let b = old($2).rem().take(1); un_small(b); assert(b =~= seq![b[0]]); } }
@@ fn parser::ULogParser::parse_array_field
@ tags
C04 C17
@ spec
    requires old($3).wf(), old($3).rem().len() <= msg_max(), $4 <= MAX_NESTING_DEPTH,
    ensures final($3).wf(), r is Ok ==> final($3).rem().len() <= old($3).rem().len(),
        /*@[C04,C17]*/ (match dec_val(self.fs(), SType { base: $1.r#type.base_type.sv(), arr: Some($2) }, old($3).rem(), kk() - $4, self.include_padding) {
            Some((v, rest)) => r is Ok && r->Ok_0.sv() == v && final($3).rem() == rest,
            None => r is Err,
        }),
    decreases MAX_NESTING_DEPTH + 1 - $4, 0int, 1int,
@ prologue
    proof { fbs_is(); }
@@ specialize field_helpers::parse_array parse_array_fmt
@ site
    parser::ULogParser::parse_array_field
@ arg
    2
@ impl
    impl<R: Read> ULogParser<R>
@ header
    fn parse_array_fmt(&self, child_format: &Shared<def::Format>, $s4: usize, $c0: usize, $c1: &mut MessageBuf) -> Result<Vec<inst::Format>, ULogError>
@ call
    self.parse_array_fmt(child_format, $s4, $args)
@@ fn parser::ULogParser::parse_array_fmt
@ tags
C04 C17
@ spec
    requires old($4).wf(), old($4).rem().len() <= msg_max(), $2 <= MAX_NESTING_DEPTH,
    ensures final($4).wf(), r is Ok ==> final($4).rem().len() <= old($4).rem().len(),
        /*@[C04,C17]*/ (match (if $3 > old($4).rem().len() { None } else { dec_fmts(self.fs(), $1.sv(), $3 as nat, old($4).rem(), kk() - $2, self.include_padding) }) {
            Some((l, rest)) => r is Ok && v_arr(r->Ok_0@) == l && final($4).rem() == rest,
            None => r is Err,
        }),
    decreases MAX_NESTING_DEPTH + 1 - $2, 0int, 0int,
@ loop 0
    invariant old($4).wf(), $4.wf(), $3 <= old($4).rem().len(), old($4).rem().len() <= msg_max(), $4.rem().len() <= old($4).rem().len(), $2 <= MAX_NESTING_DEPTH,
        it0.snapshot@.end == $3,
        dec_fmts(self.fs(), $1.sv(), it0.index@ as nat, old($4).rem(), kk() - $2, self.include_padding) == Some((v_arr($mut0@), $4.rem())),
@ loopbody 0
    proof { if dec_fmts(self.fs(), $1.sv(), (it0.index@ + 1) as nat, old($4).rem(), kk() - $2, self.include_padding) is None { dec_fmts_none(self.fs(), $1.sv(), (it0.index@ + 1) as nat, $3 as nat, old($4).rem(), kk() - $2, self.include_padding); } }
@@ fn parser::ULogParser::read_file_header
@ spec
    requires old(self).wf(), old(self).datastream.num_bytes_read + 16 <= usize::MAX,
    ensures final(self).wf(), final(self).same_opts(old(self)), final(self).same_tables(old(self)), final(self).state == old(self).state,
        /*@[C02]*/ r is Ok && !old(self).failed() ==> !final(self).failed(),
        /*@[C01,C12]*/ old(self).datastream.advanced(16, &final(self).datastream),
        /*@[C12]*/ !final(self).failed() ==> (r is Ok <==> old(self).hdr_ok()),
        /*@[C12]*/ !final(self).failed() && r is Ok ==> r->Ok_0.version == old(self).left()[7] && r->Ok_0.timestamp == le_u64(old(self).left().skip(8)),
        /*@[C03]*/ final(self).datastream.num_bytes_read <= old(self).datastream.num_bytes_read + 16,
@ prologue
    broadcast use {seq_sub_sub};
    proof { magic_is(); }
@@ fn parser::ULogParser::parse_definition
@ attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
@ spec
    requires old(self).wf(), $2.wf(), $2.rem().len() <= msg_max(),
    ensures
        /*@[C07,C08]*/ final(self).wf(),
        /*@[C07,C09]*/ final(self).same_opts(old(self)),
        /*@[C01,C02]*/ final(self).datastream == old(self).datastream,
        /*@[C12]*/ final(self).state == old(self).state,
        /*@[C11,C12]*/ final(self).fs() == old(self).fs(),
        /*@[C08]*/ final(self).subs() == old(self).subs(),
        /*@[C19]*/ final(self).multi() == old(self).multi(),
        /*@[C07]*/ final(self).subscription_filter == old(self).subscription_filter,
        /*@[C10]*/ final(self).max_bytes_to_read == if $1 is FLAG_BITS && dec_flags($2.rem()) is Some { new_limit(dec_flags($2.rem())->Some_0, old(self).max_bytes_to_read) } else { old(self).max_bytes_to_read },
        /*@[C10]*/ $1 is FLAG_BITS ==> res(r, dec_flags($2.rem())),
        /*@[C11]*/ $1 is FORMAT ==> match p_format($2.rem()) { None => r is Err, Some(x) => r is Ok && v_msg(r->Ok_0) == SMsg::Format(x) },
        /*@[C08]*/ $1 is ADD_SUBSCRIPTION ==> match dec_sub(old(self).fs(), $2.rem()) { None => r is Err, Some(x) => r is Ok && v_msg(r->Ok_0) == SMsg::Sub(x) },
        /*@[C17]*/ $1 is INFO ==> res(r, dec_info(old(self).fs(), $2.rem(), kk(), old(self).include_padding)),
        /*@[C17]*/ $1 is INFO_MULTIPLE ==> res(r, dec_multi_info(old(self).fs(), $2.rem(), kk(), old(self).include_padding)),
        /*@[C17]*/ $1 is PARAMETER ==> res(r, dec_param($2.rem())),
        /*@[C17]*/ $1 is PARAMETER_DEFAULT ==> res(r, dec_def_param($2.rem())),
        /*@[C15]*/ ($1 is DATA || $1 is LOGGING || $1 is LOGGING_TAGGED || $1 is DROPOUT || $1 is REMOVE_SUBSCRIPTION || $1 is SYNC || $1 is HEADER || $1 is UNKNOWN) ==> r is Ok && v_msg(r->Ok_0) == unhandled(byte_of($1), $2.rem()),
        /*@[C15]*/ known_type($1) ==> res(r, want_def(old(self).fs(), byte_of($1), $2.rem(), kk(), old(self).include_padding)),
        /*@[C15]*/ r is Ok && r->Ok_0 is LoggedData ==> false,
        /*@[C15]*/ r is Ok ==> (r->Ok_0 is AddSubscription <==> $1 is ADD_SUBSCRIPTION),
        /*@[C15]*/ r is Ok ==> (r->Ok_0 is FormatDefinition <==> $1 is FORMAT),
@ prologue
    proof { let b = $2.rem(); if b.len() >= 40 { bit0(b.skip(8).take(8)[0]); first_nonzero_is(seq![le_u64(b.skip(16)), le_u64(b.skip(24)), le_u64(b.skip(32))]); } }
@ closure 0
    |$p0: &&u64| -> (b: bool) ensures /*@[C10]*/ b == (**$p0 > 0)
@ closure 1
    |$p0: &u64| -> (o: usize) ensures /*@[C10]*/ o == *$p0 as usize
@@ fn parser::ULogParser::parse_flag_bits
@ spec
    requires $1.wf(),
    ensures
        /*@[C10]*/ r is Ok <==> dec_flags($1.rem()) is Some,
        /*@[C10]*/ r is Ok ==> r->Ok_0.compat_flags@ =~= $1.rem().take(8) && r->Ok_0.incompat_flags@ =~= $1.rem().skip(8).take(8),
        /*@[C10]*/ r is Ok ==> r->Ok_0.appended_data_offsets@ =~= seq![le_u64($1.rem().skip(16)), le_u64($1.rem().skip(24)), le_u64($1.rem().skip(32))],
@ prologue
    broadcast use {seq_skip_skip};
@ closure 0
    |$p0: &u8| -> (b: bool) ensures /*@[C10]*/ b == (*$p0 != 0)
@@ fn parser::ULogParser::parse_info
@ spec
    requires $1.wf(), $1.rem().len() <= msg_max(),
    ensures /*@[C17]*/ match dec_info(self.fs(), $1.rem(), kk(), self.include_padding) { Some(m) => r is Ok && r->Ok_0.v() == m, None => r is Err },
@ prologue
    broadcast use {seq_skip_skip};
    proof { if $1.rem().len() >= 1 { un_small($1.rem().take(1)); } }
@@ fn parser::ULogParser::parse_multi_info
@ spec
    requires $1.wf(), $1.rem().len() <= msg_max(),
    ensures *final(self) == *old(self), /*@[C17]*/ match dec_multi_info(old(self).fs(), $1.rem(), kk(), old(self).include_padding) { Some(m) => r is Ok && r->Ok_0.v() == m, None => r is Err },
@ prologue
    broadcast use {seq_skip_skip};
    proof { if $1.rem().len() >= 2 { un_small($1.rem().take(1)); un_small($1.rem().skip(1).take(1)); } }
@@ fn parser::ULogParser::parse_parameter
@ spec
    requires $1.wf(), $1.rem().len() <= msg_max(),
    ensures /*@[C17]*/ match dec_param($1.rem()) { Some(m) => r is Ok && r->Ok_0.v() == m, None => r is Err },
@ prologue
    broadcast use {seq_skip_skip, le_un};
    proof { if $1.rem().len() >= 1 { un_small($1.rem().take(1)); } }
@@ fn parser::ULogParser::parse_default_parameter
@ spec
    requires $1.wf(), $1.rem().len() <= msg_max(),
    ensures /*@[C17]*/ match dec_def_param($1.rem()) { Some(m) => r is Ok && r->Ok_0.v() == m, None => r is Err },
@ prologue
    broadcast use {seq_skip_skip, le_un};
    proof { if $1.rem().len() >= 2 { un_small($1.rem().take(1)); un_small($1.rem().skip(1).take(1)); } }
@@ fn parser::LoggedData::filter_fields
@ spec
    ensures /*@[C09]*/ final(self).v() == filtered(old(self).v(), $1, $2),
@ prologue
    let ghost p = |f: inst::Field| keep(f.name@, $1, $2);
    proof { v_insts_filter(self.data.fields@, p, keeper($1, $2)); assert(crate::prelude::XRetain::now(&self.data.fields).filter(p) == self.data.fields@.filter(p)); }
@ closure 0
    |$p0: &inst::Field| -> (b: bool) ensures /*@[C09]*/ b == keep($p0.name@, $1, $2)
