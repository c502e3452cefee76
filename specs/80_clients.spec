## Written by tools/mkclients.py.
@@ path yule_log::parser crate::clients::w
@@ path yule_log::builder crate::clients::w
@@ path yule_log crate
@@ path crate::Inner crate::clients::Inner
@@ path crate::VehiclePose crate::clients::VehiclePose
@@ path crate::FirstPose crate::clients::FirstPose
@@ path crate::GpsRawData2 crate::clients::GpsRawData2
@@ path crate::Arrays crate::clients::Arrays
@@ path crate::Maybe crate::clients::Maybe
@@ path crate::Deep crate::clients::Deep
@@ path crate::Paths crate::clients::Paths
@@ path crate::Empty crate::clients::Empty
@@ path crate::GPSFix2D crate::clients::GPSFix2D
@@ path std::prelude -
@@ callpath Into::into x_into_of
@@ callpath &Into::into x_into_of
@@ rename join x_join
@@ rename extend x_extend
@@ module clients
@ items
use crate::ulog::*;
use crate::model::{def, inst};
use crate::errors::ULogError;
use crate::macro_utils::{found, okv, FromField, ULogAccessor, ULogAccessorFactory};
use crate::xstd::collections::{map_of, map_of_has, map_of_key, set_of_has, set_of_el};
use crate::prelude::XIntoIterator as IntoIterator;
use crate::prelude::XInto as Into;
use crate::builder::texts_of;
broadcast use {map_of_has, map_of_key, set_of_has, set_of_el, seq_push_drop, svs_push_all};
impl XToString for ULogError {
    uninterp spec fn disp(&self) -> Seq<char>;
    #[verifier::external_body]
    fn x_to_string(&self) -> String { unimplemented!() }
}
/// The field of a definition with that name: the last one, if there are more.
pub open spec fn at(d: SDef, i: int, name: Seq<char>) -> bool {
    0 <= i < d.fields.len() && d.fields[i].name == name && forall|j: int| i < j < d.fields.len() ==> (#[trigger] d.fields[j]).name != name
}
pub open spec fn defines(d: SDef, name: Seq<char>) -> bool { exists|i: int| 0 <= i < d.fields.len() && (#[trigger] d.fields[i]).name == name }
pub open spec fn opt_at(d: SDef, i: Option<usize>, name: Seq<char>) -> bool {
    match i { Some(i) => at(d, i as int, name), None => !defines(d, name) }
}
/// A field of a message, converted.
pub open spec fn fld<T: FromField>(f: inst::Format, i: usize, name: Seq<char>, v: Option<T>) -> bool {
    match found(f.fields@, i as int, name) { None => v is None, Some(x) => T::reads(x, v) }
}
pub open spec fn ofld<T: FromField>(f: inst::Format, i: Option<usize>, name: Seq<char>, v: Option<Option<T>>) -> bool {
    match i {
        None => v == Some(None::<T>),
        Some(i) => match v { None => fld::<T>(f, i, name, None), Some(w) => w is Some && fld(f, i, name, w) },
    }
}
pub mod w {
    //! The parser and its builder, with a record of what the parser has delivered. Nothing here is trusted but the bound on the bytes read.
    use vstd::prelude::*;
    use crate::prelude::*;
    use crate::ulog::*;
    use crate::errors::ULogError;
    use crate::model::msg::UlogMessage;
    use crate::model::{def, Shared};
    use crate::xstd::collections::HashSet;
    use crate::xstd::io::Read;
    use crate::builder::Wants;
    verus! {
    /// A message (or none: an error), and the definitions that are known after it.
    pub ghost struct Step { pub msg: Option<UlogMessage>, pub fs: Map<Seq<char>, SDef> }
    pub struct ULogParser<R: Read> { pub p: crate::parser::ULogParser<R>, pub log: Ghost<Seq<Step>> }
    impl<R: Read> ULogParser<R> {
        pub open spec fn allow(&self) -> Option<Set<Seq<char>>> { self.p.allow() }
        pub open spec fn fresh(&self) -> bool { self.p.wf() && self.p.subs() == Map::<u16, SSub>::empty() && self.log@.len() == 0 }
        pub fn next(&mut self) -> (r: Option<Result<UlogMessage, ULogError>>)
            requires old(self).p.wf(),
            ensures
                final(self).p.wf(), final(self).p.same_opts(&old(self).p),
                r is None ==> final(self).log@ == old(self).log@,
                r is Some ==> final(self).log@ == old(self).log@.push(Step { msg: match r->Some_0 { Ok(m) => Some(m), Err(_) => None }, fs: final(self).p.fs() }),
                r is Some ==> final(self).log@.len() == old(self).log@.len() + 1 && final(self).log@.drop_last() == old(self).log@,
        {
            // fewer than 2^64 bytes are ever read
            assume(self.p.datastream.num_bytes_read + 65535 + 19 <= usize::MAX);
            let r = self.p.next();
            proof { if r is Some { let x = Step { msg: match r->Some_0 { Ok(m) => Some(m), Err(_) => None }, fs: self.p.fs() }; assert(self.log@.push(x).drop_last() =~= self.log@); self.log@ = self.log@.push(x); } }
            r
        }
        pub fn get_format(&self, name: &str) -> (r: Result<Shared<def::Format>, ULogError>)
            ensures r is Ok <==> self.p.fs().contains_key(name@), r is Ok ==> (*r->Ok_0).sv() == self.p.fs()[name@],
        { self.p.get_format(name) }
        pub fn set_subscription_allow_list(&mut self, set: HashSet<String>)
            requires old(self).fresh(),
            ensures final(self).fresh(), final(self).allow() == Some(set.m()),
                final(self).p.include_header == old(self).p.include_header && final(self).p.include_timestamp == old(self).p.include_timestamp && final(self).p.include_padding == old(self).p.include_padding,
        { self.p.set_subscription_allow_list(set) }
    }
    pub struct ULogParserBuilder<R: Read> { pub b: crate::builder::ULogParserBuilder<R> }
    impl<R: Read> ULogParserBuilder<R> {
        pub fn new(reader: R) -> (r: Self) ensures r.b.wants() == (Wants { header: false, timestamp: false, padding: false, allow: None })
        { ULogParserBuilder { b: crate::builder::ULogParserBuilder::new(reader) } }
        pub fn include_header(self, v: bool) -> (r: Self) ensures r.b.wants() == (Wants { header: v, ..self.b.wants() }) { ULogParserBuilder { b: self.b.include_header(v) } }
        pub fn include_timestamp(self, v: bool) -> (r: Self) ensures r.b.wants() == (Wants { timestamp: v, ..self.b.wants() }) { ULogParserBuilder { b: self.b.include_timestamp(v) } }
        pub fn include_padding(self, v: bool) -> (r: Self) ensures r.b.wants() == (Wants { padding: v, ..self.b.wants() }) { ULogParserBuilder { b: self.b.include_padding(v) } }
        pub fn build(self) -> (r: Result<ULogParser<R>, ULogError>)
            ensures r is Ok && r->Ok_0.fresh() && r->Ok_0.allow() == self.b.wants().allow,
                r->Ok_0.p.include_header == self.b.wants().header && r->Ok_0.p.include_timestamp == self.b.wants().timestamp && r->Ok_0.p.include_padding == self.b.wants().padding,
        {
            match self.b.build() {
                Ok(p) => Ok(ULogParser { p, log: Ghost(Seq::empty()) }),
                Err(e) => Err(e),
            }
        }
    }
    } // verus!
}

impl XView for __yule_log_derive_AllAccessor { type SV = __yule_log_derive_AllAccessor; open spec fn sv(&self) -> __yule_log_derive_AllAccessor { *self } }
/// What one message does to the table of subscriptions, and what the iterator delivers for it: nothing, an error or an item.
pub open spec fn All_step(s0: Map<u16, __yule_log_derive_AllAccessor>, h: w::Step, s1: Map<u16, __yule_log_derive_AllAccessor>, fwd: bool, out: Option<Option<All>>) -> bool {
    match h.msg {
        None => s1 == s0 && out == Some(None::<All>),
        Some(UlogMessage::AddSubscription(x)) =>
            if x.message_name@ == "pose_estimate"@ && x.multi_id == 0 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<All>) }
                else { exists|a: Option<FirstPoseAccessor>| #[trigger] FirstPose::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<All>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_AllAccessor::FirstPose(a)) && out is None } }
            } else if x.message_name@ == "pose_estimate"@ && x.multi_id == 2 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<All>) }
                else { exists|a: Option<VehiclePoseAccessor>| #[trigger] VehiclePose::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<All>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_AllAccessor::Pose(a)) && out is None } }
            } else if x.message_name@ == "gps_raw_data2"@ && x.multi_id == 0 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<All>) }
                else { exists|a: Option<GpsRawData2Accessor>| #[trigger] GpsRawData2::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<All>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_AllAccessor::Gps(a)) && out is None } }
            } else { s1 == s0.remove(x.msg_id) && if fwd { out == Some(Some(All::Other(UlogMessage::AddSubscription(x)))) } else { out is None } },
        Some(UlogMessage::LoggedData(d)) => s1 == s0 && if s0.contains_key(d.msg_id) { match s0[d.msg_id] { __yule_log_derive_AllAccessor::FirstPose(a) => exists|o: Option<FirstPose>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(All::FirstPose(x)) }), __yule_log_derive_AllAccessor::Pose(a) => exists|o: Option<VehiclePose>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(All::Pose(x)) }), __yule_log_derive_AllAccessor::Gps(a) => exists|o: Option<GpsRawData2>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(All::Gps(x)) }) } } else { out == Some(Some(All::Other(UlogMessage::LoggedData(d)))) },
        Some(m) => s1 == s0 && out == Some(Some(All::Other(m))),
    }
}
/// From l0 to l1, nothing is delivered.
pub open spec fn All_quiet(s0: Map<u16, __yule_log_derive_AllAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s1: Map<u16, __yule_log_derive_AllAccessor>, fwd: bool) -> bool {
    exists|ss: Seq<Map<u16, __yule_log_derive_AllAccessor>>| #[trigger] All_run(s0, l0, l1, ss, fwd) && ss.last() == s1
}
/// The tables of subscriptions from one message to the next.
pub open spec fn All_run(s0: Map<u16, __yule_log_derive_AllAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, ss: Seq<Map<u16, __yule_log_derive_AllAccessor>>, fwd: bool) -> bool {
    l0.len() <= l1.len() && l1.take(l0.len() as int) == l0 && ss.len() == l1.len() - l0.len() + 1 && ss[0] == s0
        && forall|i: int| 0 <= i < ss.len() - 1 ==> All_step(#[trigger] ss[i], l1[l0.len() + i], ss[i + 1], fwd, None)
}
pub proof fn All_goes_on(s0: Map<u16, __yule_log_derive_AllAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s: Map<u16, __yule_log_derive_AllAccessor>, s1: Map<u16, __yule_log_derive_AllAccessor>, fwd: bool)
    requires l1.len() > l0.len(), All_quiet(s0, l0, l1.drop_last(), s, fwd), All_step(s, l1.last(), s1, fwd, None)
    ensures All_quiet(s0, l0, l1, s1, fwd)
{
    hide(All_step);
    let ss = choose|ss: Seq<Map<u16, __yule_log_derive_AllAccessor>>| #[trigger] All_run(s0, l0, l1.drop_last(), ss, fwd) && ss.last() == s;
    let n = ss.push(s1);
    assert(l1.take(l0.len() as int) =~= l1.drop_last().take(l0.len() as int));
    assert forall|i: int| 0 <= i < n.len() - 1 implies All_step(#[trigger] n[i], l1[l0.len() + i], n[i + 1], fwd, None) by {
        if i < ss.len() - 1 { assert(All_step(ss[i], l1.drop_last()[l0.len() + i], ss[i + 1], fwd, None)); }
    }
    assert(All_run(s0, l0, l1, n, fwd));
}
pub proof fn All_starts(s0: Map<u16, __yule_log_derive_AllAccessor>, l0: Seq<w::Step>, fwd: bool) ensures All_quiet(s0, l0, l0, s0, fwd)
{ assert(l0.take(l0.len() as int) =~= l0); assert(All_run(s0, l0, l0, seq![s0], fwd)); }

impl XView for __yule_log_derive_FewAccessor { type SV = __yule_log_derive_FewAccessor; open spec fn sv(&self) -> __yule_log_derive_FewAccessor { *self } }
/// What one message does to the table of subscriptions, and what the iterator delivers for it: nothing, an error or an item.
pub open spec fn Few_step(s0: Map<u16, __yule_log_derive_FewAccessor>, h: w::Step, s1: Map<u16, __yule_log_derive_FewAccessor>, fwd: bool, out: Option<Option<Few>>) -> bool {
    match h.msg {
        None => s1 == s0 && out == Some(None::<Few>),
        Some(UlogMessage::AddSubscription(x)) =>
            if x.message_name@ == "gps_raw_data2"@ && x.multi_id == 0 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<Few>) }
                else { exists|a: Option<GpsRawData2Accessor>| #[trigger] GpsRawData2::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<Few>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_FewAccessor::Gps(a)) && out is None } }
            } else if x.message_name@ == "arrays"@ && x.multi_id == 1 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<Few>) }
                else { exists|a: Option<ArraysAccessor>| #[trigger] Arrays::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<Few>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_FewAccessor::A(a)) && out is None } }
            } else { s1 == s0.remove(x.msg_id) && out is None },
        Some(UlogMessage::LoggedData(d)) => s1 == s0 && if s0.contains_key(d.msg_id) { match s0[d.msg_id] { __yule_log_derive_FewAccessor::Gps(a) => exists|o: Option<GpsRawData2>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(Few::Gps(x)) }), __yule_log_derive_FewAccessor::A(a) => exists|o: Option<Arrays>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(Few::A(x)) }) } } else { out is None },
        Some(m) => s1 == s0 && out is None,
    }
}
/// From l0 to l1, nothing is delivered.
pub open spec fn Few_quiet(s0: Map<u16, __yule_log_derive_FewAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s1: Map<u16, __yule_log_derive_FewAccessor>, fwd: bool) -> bool {
    exists|ss: Seq<Map<u16, __yule_log_derive_FewAccessor>>| #[trigger] Few_run(s0, l0, l1, ss, fwd) && ss.last() == s1
}
/// The tables of subscriptions from one message to the next.
pub open spec fn Few_run(s0: Map<u16, __yule_log_derive_FewAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, ss: Seq<Map<u16, __yule_log_derive_FewAccessor>>, fwd: bool) -> bool {
    l0.len() <= l1.len() && l1.take(l0.len() as int) == l0 && ss.len() == l1.len() - l0.len() + 1 && ss[0] == s0
        && forall|i: int| 0 <= i < ss.len() - 1 ==> Few_step(#[trigger] ss[i], l1[l0.len() + i], ss[i + 1], fwd, None)
}
pub proof fn Few_goes_on(s0: Map<u16, __yule_log_derive_FewAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s: Map<u16, __yule_log_derive_FewAccessor>, s1: Map<u16, __yule_log_derive_FewAccessor>, fwd: bool)
    requires l1.len() > l0.len(), Few_quiet(s0, l0, l1.drop_last(), s, fwd), Few_step(s, l1.last(), s1, fwd, None)
    ensures Few_quiet(s0, l0, l1, s1, fwd)
{
    hide(Few_step);
    let ss = choose|ss: Seq<Map<u16, __yule_log_derive_FewAccessor>>| #[trigger] Few_run(s0, l0, l1.drop_last(), ss, fwd) && ss.last() == s;
    let n = ss.push(s1);
    assert(l1.take(l0.len() as int) =~= l1.drop_last().take(l0.len() as int));
    assert forall|i: int| 0 <= i < n.len() - 1 implies Few_step(#[trigger] n[i], l1[l0.len() + i], n[i + 1], fwd, None) by {
        if i < ss.len() - 1 { assert(Few_step(ss[i], l1.drop_last()[l0.len() + i], ss[i + 1], fwd, None)); }
    }
    assert(Few_run(s0, l0, l1, n, fwd));
}
pub proof fn Few_starts(s0: Map<u16, __yule_log_derive_FewAccessor>, l0: Seq<w::Step>, fwd: bool) ensures Few_quiet(s0, l0, l0, s0, fwd)
{ assert(l0.take(l0.len() as int) =~= l0); assert(Few_run(s0, l0, l0, seq![s0], fwd)); }

impl XView for __yule_log_derive_RestFirstAccessor { type SV = __yule_log_derive_RestFirstAccessor; open spec fn sv(&self) -> __yule_log_derive_RestFirstAccessor { *self } }
/// What one message does to the table of subscriptions, and what the iterator delivers for it: nothing, an error or an item.
pub open spec fn RestFirst_step(s0: Map<u16, __yule_log_derive_RestFirstAccessor>, h: w::Step, s1: Map<u16, __yule_log_derive_RestFirstAccessor>, fwd: bool, out: Option<Option<RestFirst>>) -> bool {
    match h.msg {
        None => s1 == s0 && out == Some(None::<RestFirst>),
        Some(UlogMessage::AddSubscription(x)) =>
            if x.message_name@ == "pose_estimate"@ && x.multi_id == 2 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<RestFirst>) }
                else { exists|a: Option<VehiclePoseAccessor>| #[trigger] VehiclePose::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<RestFirst>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_RestFirstAccessor::Pose(a)) && out is None } }
            } else { s1 == s0.remove(x.msg_id) && if fwd { out == Some(Some(RestFirst::Rest(UlogMessage::AddSubscription(x)))) } else { out is None } },
        Some(UlogMessage::LoggedData(d)) => s1 == s0 && if s0.contains_key(d.msg_id) { match s0[d.msg_id] { __yule_log_derive_RestFirstAccessor::Pose(a) => exists|o: Option<VehiclePose>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(RestFirst::Pose(x)) }) } } else { out == Some(Some(RestFirst::Rest(UlogMessage::LoggedData(d)))) },
        Some(m) => s1 == s0 && out == Some(Some(RestFirst::Rest(m))),
    }
}
/// From l0 to l1, nothing is delivered.
pub open spec fn RestFirst_quiet(s0: Map<u16, __yule_log_derive_RestFirstAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s1: Map<u16, __yule_log_derive_RestFirstAccessor>, fwd: bool) -> bool {
    exists|ss: Seq<Map<u16, __yule_log_derive_RestFirstAccessor>>| #[trigger] RestFirst_run(s0, l0, l1, ss, fwd) && ss.last() == s1
}
/// The tables of subscriptions from one message to the next.
pub open spec fn RestFirst_run(s0: Map<u16, __yule_log_derive_RestFirstAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, ss: Seq<Map<u16, __yule_log_derive_RestFirstAccessor>>, fwd: bool) -> bool {
    l0.len() <= l1.len() && l1.take(l0.len() as int) == l0 && ss.len() == l1.len() - l0.len() + 1 && ss[0] == s0
        && forall|i: int| 0 <= i < ss.len() - 1 ==> RestFirst_step(#[trigger] ss[i], l1[l0.len() + i], ss[i + 1], fwd, None)
}
pub proof fn RestFirst_goes_on(s0: Map<u16, __yule_log_derive_RestFirstAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s: Map<u16, __yule_log_derive_RestFirstAccessor>, s1: Map<u16, __yule_log_derive_RestFirstAccessor>, fwd: bool)
    requires l1.len() > l0.len(), RestFirst_quiet(s0, l0, l1.drop_last(), s, fwd), RestFirst_step(s, l1.last(), s1, fwd, None)
    ensures RestFirst_quiet(s0, l0, l1, s1, fwd)
{
    hide(RestFirst_step);
    let ss = choose|ss: Seq<Map<u16, __yule_log_derive_RestFirstAccessor>>| #[trigger] RestFirst_run(s0, l0, l1.drop_last(), ss, fwd) && ss.last() == s;
    let n = ss.push(s1);
    assert(l1.take(l0.len() as int) =~= l1.drop_last().take(l0.len() as int));
    assert forall|i: int| 0 <= i < n.len() - 1 implies RestFirst_step(#[trigger] n[i], l1[l0.len() + i], n[i + 1], fwd, None) by {
        if i < ss.len() - 1 { assert(RestFirst_step(ss[i], l1.drop_last()[l0.len() + i], ss[i + 1], fwd, None)); }
    }
    assert(RestFirst_run(s0, l0, l1, n, fwd));
}
pub proof fn RestFirst_starts(s0: Map<u16, __yule_log_derive_RestFirstAccessor>, l0: Seq<w::Step>, fwd: bool) ensures RestFirst_quiet(s0, l0, l0, s0, fwd)
{ assert(l0.take(l0.len() as int) =~= l0); assert(RestFirst_run(s0, l0, l0, seq![s0], fwd)); }

impl XView for __yule_log_derive_OneAccessor { type SV = __yule_log_derive_OneAccessor; open spec fn sv(&self) -> __yule_log_derive_OneAccessor { *self } }
/// What one message does to the table of subscriptions, and what the iterator delivers for it: nothing, an error or an item.
pub open spec fn One_step(s0: Map<u16, __yule_log_derive_OneAccessor>, h: w::Step, s1: Map<u16, __yule_log_derive_OneAccessor>, fwd: bool, out: Option<Option<One>>) -> bool {
    match h.msg {
        None => s1 == s0 && out == Some(None::<One>),
        Some(UlogMessage::AddSubscription(x)) =>
            if x.message_name@ == "maybe"@ && x.multi_id == 255 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<One>) }
                else { exists|a: Option<MaybeAccessor>| #[trigger] Maybe::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<One>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_OneAccessor::Only(a)) && out is None } }
            } else { s1 == s0.remove(x.msg_id) && out is None },
        Some(UlogMessage::LoggedData(d)) => s1 == s0 && if s0.contains_key(d.msg_id) { match s0[d.msg_id] { __yule_log_derive_OneAccessor::Only(a) => exists|o: Option<Maybe>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(One::Only(x)) }) } } else { out is None },
        Some(m) => s1 == s0 && out is None,
    }
}
/// From l0 to l1, nothing is delivered.
pub open spec fn One_quiet(s0: Map<u16, __yule_log_derive_OneAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s1: Map<u16, __yule_log_derive_OneAccessor>, fwd: bool) -> bool {
    exists|ss: Seq<Map<u16, __yule_log_derive_OneAccessor>>| #[trigger] One_run(s0, l0, l1, ss, fwd) && ss.last() == s1
}
/// The tables of subscriptions from one message to the next.
pub open spec fn One_run(s0: Map<u16, __yule_log_derive_OneAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, ss: Seq<Map<u16, __yule_log_derive_OneAccessor>>, fwd: bool) -> bool {
    l0.len() <= l1.len() && l1.take(l0.len() as int) == l0 && ss.len() == l1.len() - l0.len() + 1 && ss[0] == s0
        && forall|i: int| 0 <= i < ss.len() - 1 ==> One_step(#[trigger] ss[i], l1[l0.len() + i], ss[i + 1], fwd, None)
}
pub proof fn One_goes_on(s0: Map<u16, __yule_log_derive_OneAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s: Map<u16, __yule_log_derive_OneAccessor>, s1: Map<u16, __yule_log_derive_OneAccessor>, fwd: bool)
    requires l1.len() > l0.len(), One_quiet(s0, l0, l1.drop_last(), s, fwd), One_step(s, l1.last(), s1, fwd, None)
    ensures One_quiet(s0, l0, l1, s1, fwd)
{
    hide(One_step);
    let ss = choose|ss: Seq<Map<u16, __yule_log_derive_OneAccessor>>| #[trigger] One_run(s0, l0, l1.drop_last(), ss, fwd) && ss.last() == s;
    let n = ss.push(s1);
    assert(l1.take(l0.len() as int) =~= l1.drop_last().take(l0.len() as int));
    assert forall|i: int| 0 <= i < n.len() - 1 implies One_step(#[trigger] n[i], l1[l0.len() + i], n[i + 1], fwd, None) by {
        if i < ss.len() - 1 { assert(One_step(ss[i], l1.drop_last()[l0.len() + i], ss[i + 1], fwd, None)); }
    }
    assert(One_run(s0, l0, l1, n, fwd));
}
pub proof fn One_starts(s0: Map<u16, __yule_log_derive_OneAccessor>, l0: Seq<w::Step>, fwd: bool) ensures One_quiet(s0, l0, l0, s0, fwd)
{ assert(l0.take(l0.len() as int) =~= l0); assert(One_run(s0, l0, l0, seq![s0], fwd)); }

impl XView for __yule_log_derive_ByPathAccessor { type SV = __yule_log_derive_ByPathAccessor; open spec fn sv(&self) -> __yule_log_derive_ByPathAccessor { *self } }
/// What one message does to the table of subscriptions, and what the iterator delivers for it: nothing, an error or an item.
pub open spec fn ByPath_step(s0: Map<u16, __yule_log_derive_ByPathAccessor>, h: w::Step, s1: Map<u16, __yule_log_derive_ByPathAccessor>, fwd: bool, out: Option<Option<ByPath>>) -> bool {
    match h.msg {
        None => s1 == s0 && out == Some(None::<ByPath>),
        Some(UlogMessage::AddSubscription(x)) =>
            if x.message_name@ == "paths"@ && x.multi_id == 0 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<ByPath>) }
                else { exists|a: Option<PathsAccessor>| #[trigger] Paths::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<ByPath>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_ByPathAccessor::P(a)) && out is None } }
            } else if x.message_name@ == "empty"@ && x.multi_id == 0 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<ByPath>) }
                else { exists|a: Option<EmptyAccessor>| #[trigger] Empty::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<ByPath>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_ByPathAccessor::E(a)) && out is None } }
            } else { s1 == s0.remove(x.msg_id) && if fwd { out == Some(Some(ByPath::Rest(UlogMessage::AddSubscription(x)))) } else { out is None } },
        Some(UlogMessage::LoggedData(d)) => s1 == s0 && if s0.contains_key(d.msg_id) { match s0[d.msg_id] { __yule_log_derive_ByPathAccessor::P(a) => exists|o: Option<Paths>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(ByPath::P(x)) }), __yule_log_derive_ByPathAccessor::E(a) => exists|o: Option<Empty>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(ByPath::E(x)) }) } } else { out == Some(Some(ByPath::Rest(UlogMessage::LoggedData(d)))) },
        Some(m) => s1 == s0 && out == Some(Some(ByPath::Rest(m))),
    }
}
/// From l0 to l1, nothing is delivered.
pub open spec fn ByPath_quiet(s0: Map<u16, __yule_log_derive_ByPathAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s1: Map<u16, __yule_log_derive_ByPathAccessor>, fwd: bool) -> bool {
    exists|ss: Seq<Map<u16, __yule_log_derive_ByPathAccessor>>| #[trigger] ByPath_run(s0, l0, l1, ss, fwd) && ss.last() == s1
}
/// The tables of subscriptions from one message to the next.
pub open spec fn ByPath_run(s0: Map<u16, __yule_log_derive_ByPathAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, ss: Seq<Map<u16, __yule_log_derive_ByPathAccessor>>, fwd: bool) -> bool {
    l0.len() <= l1.len() && l1.take(l0.len() as int) == l0 && ss.len() == l1.len() - l0.len() + 1 && ss[0] == s0
        && forall|i: int| 0 <= i < ss.len() - 1 ==> ByPath_step(#[trigger] ss[i], l1[l0.len() + i], ss[i + 1], fwd, None)
}
pub proof fn ByPath_goes_on(s0: Map<u16, __yule_log_derive_ByPathAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s: Map<u16, __yule_log_derive_ByPathAccessor>, s1: Map<u16, __yule_log_derive_ByPathAccessor>, fwd: bool)
    requires l1.len() > l0.len(), ByPath_quiet(s0, l0, l1.drop_last(), s, fwd), ByPath_step(s, l1.last(), s1, fwd, None)
    ensures ByPath_quiet(s0, l0, l1, s1, fwd)
{
    hide(ByPath_step);
    let ss = choose|ss: Seq<Map<u16, __yule_log_derive_ByPathAccessor>>| #[trigger] ByPath_run(s0, l0, l1.drop_last(), ss, fwd) && ss.last() == s;
    let n = ss.push(s1);
    assert(l1.take(l0.len() as int) =~= l1.drop_last().take(l0.len() as int));
    assert forall|i: int| 0 <= i < n.len() - 1 implies ByPath_step(#[trigger] n[i], l1[l0.len() + i], n[i + 1], fwd, None) by {
        if i < ss.len() - 1 { assert(ByPath_step(ss[i], l1.drop_last()[l0.len() + i], ss[i + 1], fwd, None)); }
    }
    assert(ByPath_run(s0, l0, l1, n, fwd));
}
pub proof fn ByPath_starts(s0: Map<u16, __yule_log_derive_ByPathAccessor>, l0: Seq<w::Step>, fwd: bool) ensures ByPath_quiet(s0, l0, l0, s0, fwd)
{ assert(l0.take(l0.len() as int) =~= l0); assert(ByPath_run(s0, l0, l0, seq![s0], fwd)); }

impl XView for __yule_log_derive_RestMidAccessor { type SV = __yule_log_derive_RestMidAccessor; open spec fn sv(&self) -> __yule_log_derive_RestMidAccessor { *self } }
/// What one message does to the table of subscriptions, and what the iterator delivers for it: nothing, an error or an item.
pub open spec fn RestMid_step(s0: Map<u16, __yule_log_derive_RestMidAccessor>, h: w::Step, s1: Map<u16, __yule_log_derive_RestMidAccessor>, fwd: bool, out: Option<Option<RestMid>>) -> bool {
    match h.msg {
        None => s1 == s0 && out == Some(None::<RestMid>),
        Some(UlogMessage::AddSubscription(x)) =>
            if x.message_name@ == "Deep.1"@ && x.multi_id == 0 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<RestMid>) }
                else { exists|a: Option<DeepAccessor>| #[trigger] Deep::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<RestMid>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_RestMidAccessor::Deep(a)) && out is None } }
            } else if x.message_name@ == "inner"@ && x.multi_id == 0 {
                if !h.fs.contains_key(x.message_name@) { s1 == s0.remove(x.msg_id) && out == Some(None::<RestMid>) }
                else { exists|a: Option<InnerAccessor>| #[trigger] Inner::binds(h.fs[x.message_name@], a) && match a {
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<RestMid>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, __yule_log_derive_RestMidAccessor::Z(a)) && out is None } }
            } else { s1 == s0.remove(x.msg_id) && if fwd { out == Some(Some(RestMid::Y(UlogMessage::AddSubscription(x)))) } else { out is None } },
        Some(UlogMessage::LoggedData(d)) => s1 == s0 && if s0.contains_key(d.msg_id) { match s0[d.msg_id] { __yule_log_derive_RestMidAccessor::Deep(a) => exists|o: Option<Deep>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(RestMid::Deep(x)) }), __yule_log_derive_RestMidAccessor::Z(a) => exists|o: Option<Inner>| #[trigger] a.gives(d.data, o) && out == Some(match o { None => None, Some(x) => Some(RestMid::Z(x)) }) } } else { out == Some(Some(RestMid::Y(UlogMessage::LoggedData(d)))) },
        Some(m) => s1 == s0 && out == Some(Some(RestMid::Y(m))),
    }
}
/// From l0 to l1, nothing is delivered.
pub open spec fn RestMid_quiet(s0: Map<u16, __yule_log_derive_RestMidAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s1: Map<u16, __yule_log_derive_RestMidAccessor>, fwd: bool) -> bool {
    exists|ss: Seq<Map<u16, __yule_log_derive_RestMidAccessor>>| #[trigger] RestMid_run(s0, l0, l1, ss, fwd) && ss.last() == s1
}
/// The tables of subscriptions from one message to the next.
pub open spec fn RestMid_run(s0: Map<u16, __yule_log_derive_RestMidAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, ss: Seq<Map<u16, __yule_log_derive_RestMidAccessor>>, fwd: bool) -> bool {
    l0.len() <= l1.len() && l1.take(l0.len() as int) == l0 && ss.len() == l1.len() - l0.len() + 1 && ss[0] == s0
        && forall|i: int| 0 <= i < ss.len() - 1 ==> RestMid_step(#[trigger] ss[i], l1[l0.len() + i], ss[i + 1], fwd, None)
}
pub proof fn RestMid_goes_on(s0: Map<u16, __yule_log_derive_RestMidAccessor>, l0: Seq<w::Step>, l1: Seq<w::Step>, s: Map<u16, __yule_log_derive_RestMidAccessor>, s1: Map<u16, __yule_log_derive_RestMidAccessor>, fwd: bool)
    requires l1.len() > l0.len(), RestMid_quiet(s0, l0, l1.drop_last(), s, fwd), RestMid_step(s, l1.last(), s1, fwd, None)
    ensures RestMid_quiet(s0, l0, l1, s1, fwd)
{
    hide(RestMid_step);
    let ss = choose|ss: Seq<Map<u16, __yule_log_derive_RestMidAccessor>>| #[trigger] RestMid_run(s0, l0, l1.drop_last(), ss, fwd) && ss.last() == s;
    let n = ss.push(s1);
    assert(l1.take(l0.len() as int) =~= l1.drop_last().take(l0.len() as int));
    assert forall|i: int| 0 <= i < n.len() - 1 implies RestMid_step(#[trigger] n[i], l1[l0.len() + i], n[i + 1], fwd, None) by {
        if i < ss.len() - 1 { assert(RestMid_step(ss[i], l1.drop_last()[l0.len() + i], ss[i + 1], fwd, None)); }
    }
    assert(RestMid_run(s0, l0, l1, n, fwd));
}
pub proof fn RestMid_starts(s0: Map<u16, __yule_log_derive_RestMidAccessor>, l0: Seq<w::Step>, fwd: bool) ensures RestMid_quiet(s0, l0, l0, s0, fwd)
{ assert(l0.take(l0.len() as int) =~= l0); assert(RestMid_run(s0, l0, l0, seq![s0], fwd)); }
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for Inner>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<InnerAccessor>) -> bool {
        match a { None => !defines(d, "a"@) || !defines(d, "b"@), Some(x) => at(d, x.a_index as int, "a"@) && at(d, x.b_index as int, "b"@) }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for InnerAccessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<Inner>) -> bool {
        match o {
            Some(s) => fld::<u8>(f, self.a_index, "a"@, Some(s.a)) && fld::<Vec<i16>>(f, self.b_index, "b"@, Some(s.b)),
            None => fld::<u8>(f, self.a_index, "a"@, None) || fld::<Vec<i16>>(f, self.b_index, "b"@, None),
        }
    }
@@ fn clients::InnerAccessor::from_format
@ spec
    ensures /*@[C13]*/ Inner::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for Inner>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for InnerAccessor>::get_data
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for VehiclePose>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<VehiclePoseAccessor>) -> bool {
        match a { None => !defines(d, "timestamp"@) || !defines(d, "x"@) || !defines(d, "name"@) || !defines(d, "part"@) || !defines(d, "armed"@), Some(x) => at(d, x.timestamp_index as int, "timestamp"@) && at(d, x.x_index as int, "x"@) && opt_at(d, x.y_index, "y_raw"@) && at(d, x.name_index as int, "name"@) && at(d, x.inner_index as int, "part"@) && opt_at(d, x.many_index, "many"@) && at(d, x.armed_index as int, "armed"@) && opt_at(d, x.one_index, "one"@) }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for VehiclePoseAccessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<VehiclePose>) -> bool {
        match o {
            Some(s) => fld::<u64>(f, self.timestamp_index, "timestamp"@, Some(s.timestamp)) && fld::<f32>(f, self.x_index, "x"@, Some(s.x)) && ofld::<i16>(f, self.y_index, "y_raw"@, Some(s.y)) && fld::<Vec<CChar>>(f, self.name_index, "name"@, Some(s.name)) && fld::<Inner>(f, self.inner_index, "part"@, Some(s.inner)) && ofld::<Vec<Inner>>(f, self.many_index, "many"@, Some(s.many)) && fld::<bool>(f, self.armed_index, "armed"@, Some(s.armed)) && ofld::<Inner>(f, self.one_index, "one"@, Some(s.one)),
            None => fld::<u64>(f, self.timestamp_index, "timestamp"@, None) || fld::<f32>(f, self.x_index, "x"@, None) || ofld::<i16>(f, self.y_index, "y_raw"@, None) || fld::<Vec<CChar>>(f, self.name_index, "name"@, None) || fld::<Inner>(f, self.inner_index, "part"@, None) || ofld::<Vec<Inner>>(f, self.many_index, "many"@, None) || fld::<bool>(f, self.armed_index, "armed"@, None) || ofld::<Inner>(f, self.one_index, "one"@, None),
        }
    }
@@ fn clients::VehiclePoseAccessor::from_format
@ spec
    ensures /*@[C13]*/ VehiclePose::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for VehiclePose>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for VehiclePoseAccessor>::get_data
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for FirstPose>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<FirstPoseAccessor>) -> bool {
        match a { None => !defines(d, "parts"@), Some(x) => opt_at(d, x.x_index, "x"@) && at(d, x.parts_index as int, "parts"@) }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for FirstPoseAccessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<FirstPose>) -> bool {
        match o {
            Some(s) => ofld::<f64>(f, self.x_index, "x"@, Some(s.x)) && fld::<Vec<Inner>>(f, self.parts_index, "parts"@, Some(s.parts)),
            None => ofld::<f64>(f, self.x_index, "x"@, None) || fld::<Vec<Inner>>(f, self.parts_index, "parts"@, None),
        }
    }
@@ fn clients::FirstPoseAccessor::from_format
@ spec
    ensures /*@[C13]*/ FirstPose::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for FirstPose>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for FirstPoseAccessor>::get_data
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for GpsRawData2>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<GpsRawData2Accessor>) -> bool {
        match a { None => !defines(d, "c"@) || !defines(d, "i8"@) || !defines(d, "i16"@) || !defines(d, "i32"@) || !defines(d, "i64"@) || !defines(d, "u16"@) || !defines(d, "d"@), Some(x) => at(d, x.c_index as int, "c"@) && at(d, x.i_8_index as int, "i8"@) && at(d, x.i_16_index as int, "i16"@) && at(d, x.i_32_index as int, "i32"@) && at(d, x.i_64_index as int, "i64"@) && at(d, x.u_16_index as int, "u16"@) && opt_at(d, x.u_32_index, "u32"@) && at(d, x.d_index as int, "d"@) }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for GpsRawData2Accessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<GpsRawData2>) -> bool {
        match o {
            Some(s) => fld::<CChar>(f, self.c_index, "c"@, Some(s.c)) && fld::<i8>(f, self.i_8_index, "i8"@, Some(s.i_8)) && fld::<i16>(f, self.i_16_index, "i16"@, Some(s.i_16)) && fld::<i32>(f, self.i_32_index, "i32"@, Some(s.i_32)) && fld::<i64>(f, self.i_64_index, "i64"@, Some(s.i_64)) && fld::<u16>(f, self.u_16_index, "u16"@, Some(s.u_16)) && ofld::<u32>(f, self.u_32_index, "u32"@, Some(s.u_32)) && fld::<f64>(f, self.d_index, "d"@, Some(s.d)),
            None => fld::<CChar>(f, self.c_index, "c"@, None) || fld::<i8>(f, self.i_8_index, "i8"@, None) || fld::<i16>(f, self.i_16_index, "i16"@, None) || fld::<i32>(f, self.i_32_index, "i32"@, None) || fld::<i64>(f, self.i_64_index, "i64"@, None) || fld::<u16>(f, self.u_16_index, "u16"@, None) || ofld::<u32>(f, self.u_32_index, "u32"@, None) || fld::<f64>(f, self.d_index, "d"@, None),
        }
    }
@@ fn clients::GpsRawData2Accessor::from_format
@ spec
    ensures /*@[C13]*/ GpsRawData2::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for GpsRawData2>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for GpsRawData2Accessor>::get_data
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for Arrays>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<ArraysAccessor>) -> bool {
        match a { None => !defines(d, "v_i8"@) || !defines(d, "v_i32"@) || !defines(d, "v_i64"@) || !defines(d, "v_u8"@) || !defines(d, "v_u32"@) || !defines(d, "v_u64"@) || !defines(d, "v_f32"@) || !defines(d, "v_f64"@) || !defines(d, "v_bool"@), Some(x) => at(d, x.v_i8_index as int, "v_i8"@) && at(d, x.v_i32_index as int, "v_i32"@) && at(d, x.v_i64_index as int, "v_i64"@) && at(d, x.v_u8_index as int, "v_u8"@) && opt_at(d, x.v_u16_index, "v_u16"@) && at(d, x.v_u32_index as int, "v_u32"@) && at(d, x.v_u64_index as int, "v_u64"@) && at(d, x.v_f32_index as int, "v_f32"@) && at(d, x.v_f64_index as int, "v_f64"@) && at(d, x.v_bool_index as int, "v_bool"@) }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for ArraysAccessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<Arrays>) -> bool {
        match o {
            Some(s) => fld::<Vec<i8>>(f, self.v_i8_index, "v_i8"@, Some(s.v_i8)) && fld::<Vec<i32>>(f, self.v_i32_index, "v_i32"@, Some(s.v_i32)) && fld::<Vec<i64>>(f, self.v_i64_index, "v_i64"@, Some(s.v_i64)) && fld::<Vec<u8>>(f, self.v_u8_index, "v_u8"@, Some(s.v_u8)) && ofld::<Vec<u16>>(f, self.v_u16_index, "v_u16"@, Some(s.v_u16)) && fld::<Vec<u32>>(f, self.v_u32_index, "v_u32"@, Some(s.v_u32)) && fld::<Vec<u64>>(f, self.v_u64_index, "v_u64"@, Some(s.v_u64)) && fld::<Vec<f32>>(f, self.v_f32_index, "v_f32"@, Some(s.v_f32)) && fld::<Vec<f64>>(f, self.v_f64_index, "v_f64"@, Some(s.v_f64)) && fld::<Vec<bool>>(f, self.v_bool_index, "v_bool"@, Some(s.v_bool)),
            None => fld::<Vec<i8>>(f, self.v_i8_index, "v_i8"@, None) || fld::<Vec<i32>>(f, self.v_i32_index, "v_i32"@, None) || fld::<Vec<i64>>(f, self.v_i64_index, "v_i64"@, None) || fld::<Vec<u8>>(f, self.v_u8_index, "v_u8"@, None) || ofld::<Vec<u16>>(f, self.v_u16_index, "v_u16"@, None) || fld::<Vec<u32>>(f, self.v_u32_index, "v_u32"@, None) || fld::<Vec<u64>>(f, self.v_u64_index, "v_u64"@, None) || fld::<Vec<f32>>(f, self.v_f32_index, "v_f32"@, None) || fld::<Vec<f64>>(f, self.v_f64_index, "v_f64"@, None) || fld::<Vec<bool>>(f, self.v_bool_index, "v_bool"@, None),
        }
    }
@@ fn clients::ArraysAccessor::from_format
@ spec
    ensures /*@[C13]*/ Arrays::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for Arrays>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for ArraysAccessor>::get_data
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for Maybe>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<MaybeAccessor>) -> bool {
        match a { None => false, Some(x) => opt_at(d, x.timestamp_index, "timestamp"@) && opt_at(d, x.set_index, "set"@) && opt_at(d, x.text_index, "text"@) }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for MaybeAccessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<Maybe>) -> bool {
        match o {
            Some(s) => ofld::<u64>(f, self.timestamp_index, "timestamp"@, Some(s.timestamp)) && ofld::<bool>(f, self.set_index, "set"@, Some(s.set)) && ofld::<Vec<CChar>>(f, self.text_index, "text"@, Some(s.text)),
            None => ofld::<u64>(f, self.timestamp_index, "timestamp"@, None) || ofld::<bool>(f, self.set_index, "set"@, None) || ofld::<Vec<CChar>>(f, self.text_index, "text"@, None),
        }
    }
@@ fn clients::MaybeAccessor::from_format
@ spec
    ensures /*@[C13]*/ Maybe::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for Maybe>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for MaybeAccessor>::get_data
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for Deep>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<DeepAccessor>) -> bool {
        match a { None => !defines(d, "opts"@) || !defines(d, "maybe"@) || !defines(d, "Z"@), Some(x) => at(d, x.opts_index as int, "opts"@) && at(d, x.maybe_index as int, "maybe"@) && opt_at(d, x.pose_index, "_padding0"@) && at(d, x.Z_index as int, "Z"@) && opt_at(d, x._q_index, "_q"@) }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for DeepAccessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<Deep>) -> bool {
        match o {
            Some(s) => fld::<Vec<Maybe>>(f, self.opts_index, "opts"@, Some(s.opts)) && fld::<Maybe>(f, self.maybe_index, "maybe"@, Some(s.maybe)) && ofld::<VehiclePose>(f, self.pose_index, "_padding0"@, Some(s.pose)) && fld::<u8>(f, self.Z_index, "Z"@, Some(s.Z)) && ofld::<Vec<f32>>(f, self._q_index, "_q"@, Some(s._q)),
            None => fld::<Vec<Maybe>>(f, self.opts_index, "opts"@, None) || fld::<Maybe>(f, self.maybe_index, "maybe"@, None) || ofld::<VehiclePose>(f, self.pose_index, "_padding0"@, None) || fld::<u8>(f, self.Z_index, "Z"@, None) || ofld::<Vec<f32>>(f, self._q_index, "_q"@, None),
        }
    }
@@ fn clients::DeepAccessor::from_format
@ spec
    ensures /*@[C13]*/ Deep::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for Deep>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for DeepAccessor>::get_data
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for Paths>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<PathsAccessor>) -> bool {
        match a { None => !defines(d, "v"@), Some(x) => opt_at(d, x.o_index, "o"@) && at(d, x.v_index as int, "v"@) && opt_at(d, x.w_index, "w"@) && opt_at(d, x.x_index, "x"@) }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for PathsAccessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<Paths>) -> bool {
        match o {
            Some(s) => ofld::<u8>(f, self.o_index, "o"@, Some(s.o)) && fld::<Vec<i16>>(f, self.v_index, "v"@, Some(s.v)) && ofld::<Vec<Maybe>>(f, self.w_index, "w"@, Some(s.w)) && ofld::<Inner>(f, self.x_index, "x"@, Some(s.x)),
            None => ofld::<u8>(f, self.o_index, "o"@, None) || fld::<Vec<i16>>(f, self.v_index, "v"@, None) || ofld::<Vec<Maybe>>(f, self.w_index, "w"@, None) || ofld::<Inner>(f, self.x_index, "x"@, None),
        }
    }
@@ fn clients::PathsAccessor::from_format
@ spec
    ensures /*@[C13]*/ Paths::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for Paths>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for PathsAccessor>::get_data
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for Empty>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<EmptyAccessor>) -> bool {
        match a { None => false, Some(x) => true }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for EmptyAccessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<Empty>) -> bool {
        match o {
            Some(s) => true,
            None => false,
        }
    }
@@ fn clients::EmptyAccessor::from_format
@ spec
    ensures /*@[C13]*/ Empty::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for Empty>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for EmptyAccessor>::get_data
@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for GPSFix2D>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<GPSFix2DAccessor>) -> bool {
        match a { None => !defines(d, "HDOP"@), Some(x) => at(d, x.hdop_index as int, "HDOP"@) && opt_at(d, x.Lat_index, "Lat"@) }
    }
@@ impl clients::<yule_log::macro_utils::ULogAccessor for GPSFix2DAccessor>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<GPSFix2D>) -> bool {
        match o {
            Some(s) => fld::<f32>(f, self.hdop_index, "HDOP"@, Some(s.hdop)) && ofld::<f64>(f, self.Lat_index, "Lat"@, Some(s.Lat)),
            None => fld::<f32>(f, self.hdop_index, "HDOP"@, None) || ofld::<f64>(f, self.Lat_index, "Lat"@, None),
        }
    }
@@ fn clients::GPSFix2DAccessor::from_format
@ spec
    ensures /*@[C13]*/ GPSFix2D::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for GPSFix2D>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for GPSFix2DAccessor>::get_data
@@ impl clients::<::core::fmt::Debug for __yule_log_derive_AllBuilder>
@ drop
    Debug is not part of any listed property
@@ item clients::__yule_log_derive_All
@ after
impl<R: crate::xstd::io::Read> __yule_log_derive_All<R> {
    /// It has just been made, for these names.
    pub open spec fn ready(&self, more: Seq<String>) -> bool {
        &&& self.parser.fresh() && self.subs.m() == Map::<u16, __yule_log_derive_AllAccessor>::empty()
        &&& self.parser.allow() is Some && forall|n: Seq<char>| #[trigger] self.parser.allow()->Some_0.contains(n) <==> (n == "pose_estimate"@ || n == "pose_estimate"@ || n == "gps_raw_data2"@ || svs(more).to_set().contains(n))
        &&& self.parser.p.include_timestamp && self.parser.p.include_padding && !self.parser.p.include_header
    }
}
@@ fn clients::__yule_log_derive_AllBuilder::new
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ fn clients::__yule_log_derive_AllBuilder::add_subscription
@ spec
    ensures /*@[C14]*/ r is Ok <==> true,
        /*@[C14]*/ r is Ok ==> exists|t: String| #![trigger self.extra_allow_list@.push(t)] $1.into_ok(t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@.push(t),
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_AllBuilder::extend_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> true,
        /*@[C14]*/ r is Ok ==> exists|t: Seq<String>| #![trigger self.extra_allow_list@ + t] texts_of($1.its(), t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@ + t,
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_AllBuilder::forward_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> !$1 || true,
        /*@[C14]*/ r is Ok ==> r->Ok_0.forward_subscriptions == $1 && r->Ok_0.reader == self.reader && r->Ok_0.extra_allow_list == self.extra_allow_list,
@@ fn clients::__yule_log_derive_AllBuilder::stream
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(self.extra_allow_list@) && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_All::new
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::__yule_log_derive_All::extend_allow_list
@ spec
    requires old(self).ready(Seq::<String>::empty()),
    ensures /*@[C14]*/ final(self).ready($1@) && final(self).forward_subscriptions == old(self).forward_subscriptions,
@@ fn clients::__yule_log_derive_All::forward_subscriptions
@ spec
    ensures /*@[C14]*/ final(self).forward_subscriptions == $1, final(self).parser == old(self).parser, final(self).subs == old(self).subs,
@@ impl clients::<Iterator for __yule_log_derive_All>
@ header
impl<R: crate::xstd::io::Read> __yule_log_derive_All<R>
@@ fn clients::<Iterator for __yule_log_derive_All>::next
@ attr
#[verifier::exec_allows_no_decreases_clause]
@ spec
    requires old(self).parser.p.wf(),
    ensures
        final(self).parser.p.wf(), final(self).forward_subscriptions == old(self).forward_subscriptions, /*@[C14]*/ final(self).parser.p.same_opts(&old(self).parser.p),
        /*@[C14]*/ r is None ==> All_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@, final(self).subs.m(), old(self).forward_subscriptions),
        /*@[C14]*/ r is Some ==> exists|s: Map<u16, __yule_log_derive_AllAccessor>| #[trigger] All_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@.drop_last(), s, old(self).forward_subscriptions)
            && final(self).parser.log@.len() > old(self).parser.log@.len() && All_step(s, final(self).parser.log@.last(), final(self).subs.m(), old(self).forward_subscriptions, Some(okv(r->Some_0))),
@ prologue
    proof { All_starts(self.subs.m(), self.parser.log@, self.forward_subscriptions); }
@ loop 0
    invariant self.parser.p.wf(), self.forward_subscriptions == old(self).forward_subscriptions, self.parser.p.same_opts(&old(self).parser.p), self.parser.log@.len() >= old(self).parser.log@.len(),
        All_quiet(old(self).subs.m(), old(self).parser.log@, self.parser.log@, self.subs.m(), self.forward_subscriptions),
@ loopbody 0
    let ghost s0 = self.subs.m();
@ loopend 0
    proof { assert(All_step(s0, self.parser.log@.last(), self.subs.m(), self.forward_subscriptions, None)); All_goes_on(old(self).subs.m(), old(self).parser.log@, self.parser.log@, s0, self.subs.m(), self.forward_subscriptions); }
@ closure 0
    |$p0: FirstPose| -> (o: All) ensures o == All::FirstPose($p0)
@ closure 1
    |$p0: VehiclePose| -> (o: All) ensures o == All::Pose($p0)
@ closure 2
    |$p0: GpsRawData2| -> (o: All) ensures o == All::Gps($p0)
@@ fn clients::All::stream
@ output
Result<__yule_log_derive_All<R>, crate::errors::ULogError>
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::All::builder
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ impl clients::<::core::fmt::Debug for __yule_log_derive_FewBuilder>
@ drop
    Debug is not part of any listed property
@@ item clients::__yule_log_derive_Few
@ after
impl<R: crate::xstd::io::Read> __yule_log_derive_Few<R> {
    /// It has just been made, for these names.
    pub open spec fn ready(&self, more: Seq<String>) -> bool {
        &&& self.parser.fresh() && self.subs.m() == Map::<u16, __yule_log_derive_FewAccessor>::empty()
        &&& self.parser.allow() is Some && forall|n: Seq<char>| #[trigger] self.parser.allow()->Some_0.contains(n) <==> (n == "gps_raw_data2"@ || n == "arrays"@ || svs(more).to_set().contains(n))
        &&& self.parser.p.include_timestamp && self.parser.p.include_padding && !self.parser.p.include_header
    }
}
@@ fn clients::__yule_log_derive_FewBuilder::new
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ fn clients::__yule_log_derive_FewBuilder::add_subscription
@ spec
    ensures /*@[C14]*/ r is Ok <==> false,
        /*@[C14]*/ r is Ok ==> exists|t: String| #![trigger self.extra_allow_list@.push(t)] $1.into_ok(t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@.push(t),
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_FewBuilder::extend_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> false,
        /*@[C14]*/ r is Ok ==> exists|t: Seq<String>| #![trigger self.extra_allow_list@ + t] texts_of($1.its(), t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@ + t,
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_FewBuilder::forward_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> !$1 || false,
        /*@[C14]*/ r is Ok ==> r->Ok_0.forward_subscriptions == $1 && r->Ok_0.reader == self.reader && r->Ok_0.extra_allow_list == self.extra_allow_list,
@@ fn clients::__yule_log_derive_FewBuilder::stream
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(self.extra_allow_list@) && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_Few::new
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::__yule_log_derive_Few::extend_allow_list
@ spec
    requires old(self).ready(Seq::<String>::empty()),
    ensures /*@[C14]*/ final(self).ready($1@) && final(self).forward_subscriptions == old(self).forward_subscriptions,
@@ fn clients::__yule_log_derive_Few::forward_subscriptions
@ spec
    ensures /*@[C14]*/ final(self).forward_subscriptions == $1, final(self).parser == old(self).parser, final(self).subs == old(self).subs,
@@ impl clients::<Iterator for __yule_log_derive_Few>
@ header
impl<R: crate::xstd::io::Read> __yule_log_derive_Few<R>
@@ fn clients::<Iterator for __yule_log_derive_Few>::next
@ attr
#[verifier::exec_allows_no_decreases_clause]
@ spec
    requires old(self).parser.p.wf(),
    ensures
        final(self).parser.p.wf(), final(self).forward_subscriptions == old(self).forward_subscriptions, /*@[C14]*/ final(self).parser.p.same_opts(&old(self).parser.p),
        /*@[C14]*/ r is None ==> Few_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@, final(self).subs.m(), old(self).forward_subscriptions),
        /*@[C14]*/ r is Some ==> exists|s: Map<u16, __yule_log_derive_FewAccessor>| #[trigger] Few_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@.drop_last(), s, old(self).forward_subscriptions)
            && final(self).parser.log@.len() > old(self).parser.log@.len() && Few_step(s, final(self).parser.log@.last(), final(self).subs.m(), old(self).forward_subscriptions, Some(okv(r->Some_0))),
@ prologue
    proof { Few_starts(self.subs.m(), self.parser.log@, self.forward_subscriptions); }
@ loop 0
    invariant self.parser.p.wf(), self.forward_subscriptions == old(self).forward_subscriptions, self.parser.p.same_opts(&old(self).parser.p), self.parser.log@.len() >= old(self).parser.log@.len(),
        Few_quiet(old(self).subs.m(), old(self).parser.log@, self.parser.log@, self.subs.m(), self.forward_subscriptions),
@ loopbody 0
    let ghost s0 = self.subs.m();
@ loopend 0
    proof { assert(Few_step(s0, self.parser.log@.last(), self.subs.m(), self.forward_subscriptions, None)); Few_goes_on(old(self).subs.m(), old(self).parser.log@, self.parser.log@, s0, self.subs.m(), self.forward_subscriptions); }
@ closure 0
    |$p0: GpsRawData2| -> (o: Few) ensures o == Few::Gps($p0)
@ closure 1
    |$p0: Arrays| -> (o: Few) ensures o == Few::A($p0)
@@ fn clients::Few::stream
@ output
Result<__yule_log_derive_Few<R>, crate::errors::ULogError>
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::Few::builder
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ impl clients::<::core::fmt::Debug for __yule_log_derive_RestFirstBuilder>
@ drop
    Debug is not part of any listed property
@@ item clients::__yule_log_derive_RestFirst
@ after
impl<R: crate::xstd::io::Read> __yule_log_derive_RestFirst<R> {
    /// It has just been made, for these names.
    pub open spec fn ready(&self, more: Seq<String>) -> bool {
        &&& self.parser.fresh() && self.subs.m() == Map::<u16, __yule_log_derive_RestFirstAccessor>::empty()
        &&& self.parser.allow() is Some && forall|n: Seq<char>| #[trigger] self.parser.allow()->Some_0.contains(n) <==> (n == "pose_estimate"@ || svs(more).to_set().contains(n))
        &&& self.parser.p.include_timestamp && self.parser.p.include_padding && !self.parser.p.include_header
    }
}
@@ fn clients::__yule_log_derive_RestFirstBuilder::new
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ fn clients::__yule_log_derive_RestFirstBuilder::add_subscription
@ spec
    ensures /*@[C14]*/ r is Ok <==> true,
        /*@[C14]*/ r is Ok ==> exists|t: String| #![trigger self.extra_allow_list@.push(t)] $1.into_ok(t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@.push(t),
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_RestFirstBuilder::extend_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> true,
        /*@[C14]*/ r is Ok ==> exists|t: Seq<String>| #![trigger self.extra_allow_list@ + t] texts_of($1.its(), t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@ + t,
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_RestFirstBuilder::forward_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> !$1 || true,
        /*@[C14]*/ r is Ok ==> r->Ok_0.forward_subscriptions == $1 && r->Ok_0.reader == self.reader && r->Ok_0.extra_allow_list == self.extra_allow_list,
@@ fn clients::__yule_log_derive_RestFirstBuilder::stream
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(self.extra_allow_list@) && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_RestFirst::new
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::__yule_log_derive_RestFirst::extend_allow_list
@ spec
    requires old(self).ready(Seq::<String>::empty()),
    ensures /*@[C14]*/ final(self).ready($1@) && final(self).forward_subscriptions == old(self).forward_subscriptions,
@@ fn clients::__yule_log_derive_RestFirst::forward_subscriptions
@ spec
    ensures /*@[C14]*/ final(self).forward_subscriptions == $1, final(self).parser == old(self).parser, final(self).subs == old(self).subs,
@@ impl clients::<Iterator for __yule_log_derive_RestFirst>
@ header
impl<R: crate::xstd::io::Read> __yule_log_derive_RestFirst<R>
@@ fn clients::<Iterator for __yule_log_derive_RestFirst>::next
@ attr
#[verifier::exec_allows_no_decreases_clause]
@ spec
    requires old(self).parser.p.wf(),
    ensures
        final(self).parser.p.wf(), final(self).forward_subscriptions == old(self).forward_subscriptions, /*@[C14]*/ final(self).parser.p.same_opts(&old(self).parser.p),
        /*@[C14]*/ r is None ==> RestFirst_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@, final(self).subs.m(), old(self).forward_subscriptions),
        /*@[C14]*/ r is Some ==> exists|s: Map<u16, __yule_log_derive_RestFirstAccessor>| #[trigger] RestFirst_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@.drop_last(), s, old(self).forward_subscriptions)
            && final(self).parser.log@.len() > old(self).parser.log@.len() && RestFirst_step(s, final(self).parser.log@.last(), final(self).subs.m(), old(self).forward_subscriptions, Some(okv(r->Some_0))),
@ prologue
    proof { RestFirst_starts(self.subs.m(), self.parser.log@, self.forward_subscriptions); }
@ loop 0
    invariant self.parser.p.wf(), self.forward_subscriptions == old(self).forward_subscriptions, self.parser.p.same_opts(&old(self).parser.p), self.parser.log@.len() >= old(self).parser.log@.len(),
        RestFirst_quiet(old(self).subs.m(), old(self).parser.log@, self.parser.log@, self.subs.m(), self.forward_subscriptions),
@ loopbody 0
    let ghost s0 = self.subs.m();
@ loopend 0
    proof { assert(RestFirst_step(s0, self.parser.log@.last(), self.subs.m(), self.forward_subscriptions, None)); RestFirst_goes_on(old(self).subs.m(), old(self).parser.log@, self.parser.log@, s0, self.subs.m(), self.forward_subscriptions); }
@ closure 0
    |$p0: VehiclePose| -> (o: RestFirst) ensures o == RestFirst::Pose($p0)
@@ fn clients::RestFirst::stream
@ output
Result<__yule_log_derive_RestFirst<R>, crate::errors::ULogError>
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::RestFirst::builder
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ impl clients::<::core::fmt::Debug for __yule_log_derive_OneBuilder>
@ drop
    Debug is not part of any listed property
@@ item clients::__yule_log_derive_One
@ after
impl<R: crate::xstd::io::Read> __yule_log_derive_One<R> {
    /// It has just been made, for these names.
    pub open spec fn ready(&self, more: Seq<String>) -> bool {
        &&& self.parser.fresh() && self.subs.m() == Map::<u16, __yule_log_derive_OneAccessor>::empty()
        &&& self.parser.allow() is Some && forall|n: Seq<char>| #[trigger] self.parser.allow()->Some_0.contains(n) <==> (n == "maybe"@ || svs(more).to_set().contains(n))
        &&& self.parser.p.include_timestamp && self.parser.p.include_padding && !self.parser.p.include_header
    }
}
@@ fn clients::__yule_log_derive_OneBuilder::new
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ fn clients::__yule_log_derive_OneBuilder::add_subscription
@ spec
    ensures /*@[C14]*/ r is Ok <==> false,
        /*@[C14]*/ r is Ok ==> exists|t: String| #![trigger self.extra_allow_list@.push(t)] $1.into_ok(t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@.push(t),
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_OneBuilder::extend_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> false,
        /*@[C14]*/ r is Ok ==> exists|t: Seq<String>| #![trigger self.extra_allow_list@ + t] texts_of($1.its(), t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@ + t,
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_OneBuilder::forward_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> !$1 || false,
        /*@[C14]*/ r is Ok ==> r->Ok_0.forward_subscriptions == $1 && r->Ok_0.reader == self.reader && r->Ok_0.extra_allow_list == self.extra_allow_list,
@@ fn clients::__yule_log_derive_OneBuilder::stream
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(self.extra_allow_list@) && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_One::new
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::__yule_log_derive_One::extend_allow_list
@ spec
    requires old(self).ready(Seq::<String>::empty()),
    ensures /*@[C14]*/ final(self).ready($1@) && final(self).forward_subscriptions == old(self).forward_subscriptions,
@@ fn clients::__yule_log_derive_One::forward_subscriptions
@ spec
    ensures /*@[C14]*/ final(self).forward_subscriptions == $1, final(self).parser == old(self).parser, final(self).subs == old(self).subs,
@@ impl clients::<Iterator for __yule_log_derive_One>
@ header
impl<R: crate::xstd::io::Read> __yule_log_derive_One<R>
@@ fn clients::<Iterator for __yule_log_derive_One>::next
@ attr
#[verifier::exec_allows_no_decreases_clause]
@ spec
    requires old(self).parser.p.wf(),
    ensures
        final(self).parser.p.wf(), final(self).forward_subscriptions == old(self).forward_subscriptions, /*@[C14]*/ final(self).parser.p.same_opts(&old(self).parser.p),
        /*@[C14]*/ r is None ==> One_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@, final(self).subs.m(), old(self).forward_subscriptions),
        /*@[C14]*/ r is Some ==> exists|s: Map<u16, __yule_log_derive_OneAccessor>| #[trigger] One_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@.drop_last(), s, old(self).forward_subscriptions)
            && final(self).parser.log@.len() > old(self).parser.log@.len() && One_step(s, final(self).parser.log@.last(), final(self).subs.m(), old(self).forward_subscriptions, Some(okv(r->Some_0))),
@ prologue
    proof { One_starts(self.subs.m(), self.parser.log@, self.forward_subscriptions); }
@ loop 0
    invariant self.parser.p.wf(), self.forward_subscriptions == old(self).forward_subscriptions, self.parser.p.same_opts(&old(self).parser.p), self.parser.log@.len() >= old(self).parser.log@.len(),
        One_quiet(old(self).subs.m(), old(self).parser.log@, self.parser.log@, self.subs.m(), self.forward_subscriptions),
@ loopbody 0
    let ghost s0 = self.subs.m();
@ loopend 0
    proof { assert(One_step(s0, self.parser.log@.last(), self.subs.m(), self.forward_subscriptions, None)); One_goes_on(old(self).subs.m(), old(self).parser.log@, self.parser.log@, s0, self.subs.m(), self.forward_subscriptions); }
@ closure 0
    |$p0: Maybe| -> (o: One) ensures o == One::Only($p0)
@@ fn clients::One::stream
@ output
Result<__yule_log_derive_One<R>, crate::errors::ULogError>
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::One::builder
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ impl clients::<::core::fmt::Debug for __yule_log_derive_ByPathBuilder>
@ drop
    Debug is not part of any listed property
@@ item clients::__yule_log_derive_ByPath
@ after
impl<R: crate::xstd::io::Read> __yule_log_derive_ByPath<R> {
    /// It has just been made, for these names.
    pub open spec fn ready(&self, more: Seq<String>) -> bool {
        &&& self.parser.fresh() && self.subs.m() == Map::<u16, __yule_log_derive_ByPathAccessor>::empty()
        &&& self.parser.allow() is Some && forall|n: Seq<char>| #[trigger] self.parser.allow()->Some_0.contains(n) <==> (n == "paths"@ || n == "empty"@ || svs(more).to_set().contains(n))
        &&& self.parser.p.include_timestamp && self.parser.p.include_padding && !self.parser.p.include_header
    }
}
@@ fn clients::__yule_log_derive_ByPathBuilder::new
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ fn clients::__yule_log_derive_ByPathBuilder::add_subscription
@ spec
    ensures /*@[C14]*/ r is Ok <==> true,
        /*@[C14]*/ r is Ok ==> exists|t: String| #![trigger self.extra_allow_list@.push(t)] $1.into_ok(t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@.push(t),
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_ByPathBuilder::extend_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> true,
        /*@[C14]*/ r is Ok ==> exists|t: Seq<String>| #![trigger self.extra_allow_list@ + t] texts_of($1.its(), t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@ + t,
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_ByPathBuilder::forward_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> !$1 || true,
        /*@[C14]*/ r is Ok ==> r->Ok_0.forward_subscriptions == $1 && r->Ok_0.reader == self.reader && r->Ok_0.extra_allow_list == self.extra_allow_list,
@@ fn clients::__yule_log_derive_ByPathBuilder::stream
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(self.extra_allow_list@) && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_ByPath::new
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::__yule_log_derive_ByPath::extend_allow_list
@ spec
    requires old(self).ready(Seq::<String>::empty()),
    ensures /*@[C14]*/ final(self).ready($1@) && final(self).forward_subscriptions == old(self).forward_subscriptions,
@@ fn clients::__yule_log_derive_ByPath::forward_subscriptions
@ spec
    ensures /*@[C14]*/ final(self).forward_subscriptions == $1, final(self).parser == old(self).parser, final(self).subs == old(self).subs,
@@ impl clients::<Iterator for __yule_log_derive_ByPath>
@ header
impl<R: crate::xstd::io::Read> __yule_log_derive_ByPath<R>
@@ fn clients::<Iterator for __yule_log_derive_ByPath>::next
@ attr
#[verifier::exec_allows_no_decreases_clause]
@ spec
    requires old(self).parser.p.wf(),
    ensures
        final(self).parser.p.wf(), final(self).forward_subscriptions == old(self).forward_subscriptions, /*@[C14]*/ final(self).parser.p.same_opts(&old(self).parser.p),
        /*@[C14]*/ r is None ==> ByPath_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@, final(self).subs.m(), old(self).forward_subscriptions),
        /*@[C14]*/ r is Some ==> exists|s: Map<u16, __yule_log_derive_ByPathAccessor>| #[trigger] ByPath_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@.drop_last(), s, old(self).forward_subscriptions)
            && final(self).parser.log@.len() > old(self).parser.log@.len() && ByPath_step(s, final(self).parser.log@.last(), final(self).subs.m(), old(self).forward_subscriptions, Some(okv(r->Some_0))),
@ prologue
    proof { ByPath_starts(self.subs.m(), self.parser.log@, self.forward_subscriptions); }
@ loop 0
    invariant self.parser.p.wf(), self.forward_subscriptions == old(self).forward_subscriptions, self.parser.p.same_opts(&old(self).parser.p), self.parser.log@.len() >= old(self).parser.log@.len(),
        ByPath_quiet(old(self).subs.m(), old(self).parser.log@, self.parser.log@, self.subs.m(), self.forward_subscriptions),
@ loopbody 0
    let ghost s0 = self.subs.m();
@ loopend 0
    proof { assert(ByPath_step(s0, self.parser.log@.last(), self.subs.m(), self.forward_subscriptions, None)); ByPath_goes_on(old(self).subs.m(), old(self).parser.log@, self.parser.log@, s0, self.subs.m(), self.forward_subscriptions); }
@ closure 0
    |$p0: Paths| -> (o: ByPath) ensures o == ByPath::P($p0)
@ closure 1
    |$p0: Empty| -> (o: ByPath) ensures o == ByPath::E($p0)
@@ fn clients::ByPath::stream
@ output
Result<__yule_log_derive_ByPath<R>, crate::errors::ULogError>
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::ByPath::builder
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ impl clients::<::core::fmt::Debug for __yule_log_derive_RestMidBuilder>
@ drop
    Debug is not part of any listed property
@@ item clients::__yule_log_derive_RestMid
@ after
impl<R: crate::xstd::io::Read> __yule_log_derive_RestMid<R> {
    /// It has just been made, for these names.
    pub open spec fn ready(&self, more: Seq<String>) -> bool {
        &&& self.parser.fresh() && self.subs.m() == Map::<u16, __yule_log_derive_RestMidAccessor>::empty()
        &&& self.parser.allow() is Some && forall|n: Seq<char>| #[trigger] self.parser.allow()->Some_0.contains(n) <==> (n == "Deep.1"@ || n == "inner"@ || svs(more).to_set().contains(n))
        &&& self.parser.p.include_timestamp && self.parser.p.include_padding && !self.parser.p.include_header
    }
}
@@ fn clients::__yule_log_derive_RestMidBuilder::new
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ fn clients::__yule_log_derive_RestMidBuilder::add_subscription
@ spec
    ensures /*@[C14]*/ r is Ok <==> true,
        /*@[C14]*/ r is Ok ==> exists|t: String| #![trigger self.extra_allow_list@.push(t)] $1.into_ok(t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@.push(t),
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_RestMidBuilder::extend_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> true,
        /*@[C14]*/ r is Ok ==> exists|t: Seq<String>| #![trigger self.extra_allow_list@ + t] texts_of($1.its(), t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@ + t,
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_RestMidBuilder::forward_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> !$1 || true,
        /*@[C14]*/ r is Ok ==> r->Ok_0.forward_subscriptions == $1 && r->Ok_0.reader == self.reader && r->Ok_0.extra_allow_list == self.extra_allow_list,
@@ fn clients::__yule_log_derive_RestMidBuilder::stream
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(self.extra_allow_list@) && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::__yule_log_derive_RestMid::new
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::__yule_log_derive_RestMid::extend_allow_list
@ spec
    requires old(self).ready(Seq::<String>::empty()),
    ensures /*@[C14]*/ final(self).ready($1@) && final(self).forward_subscriptions == old(self).forward_subscriptions,
@@ fn clients::__yule_log_derive_RestMid::forward_subscriptions
@ spec
    ensures /*@[C14]*/ final(self).forward_subscriptions == $1, final(self).parser == old(self).parser, final(self).subs == old(self).subs,
@@ impl clients::<Iterator for __yule_log_derive_RestMid>
@ header
impl<R: crate::xstd::io::Read> __yule_log_derive_RestMid<R>
@@ fn clients::<Iterator for __yule_log_derive_RestMid>::next
@ attr
#[verifier::exec_allows_no_decreases_clause]
@ spec
    requires old(self).parser.p.wf(),
    ensures
        final(self).parser.p.wf(), final(self).forward_subscriptions == old(self).forward_subscriptions, /*@[C14]*/ final(self).parser.p.same_opts(&old(self).parser.p),
        /*@[C14]*/ r is None ==> RestMid_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@, final(self).subs.m(), old(self).forward_subscriptions),
        /*@[C14]*/ r is Some ==> exists|s: Map<u16, __yule_log_derive_RestMidAccessor>| #[trigger] RestMid_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@.drop_last(), s, old(self).forward_subscriptions)
            && final(self).parser.log@.len() > old(self).parser.log@.len() && RestMid_step(s, final(self).parser.log@.last(), final(self).subs.m(), old(self).forward_subscriptions, Some(okv(r->Some_0))),
@ prologue
    proof { RestMid_starts(self.subs.m(), self.parser.log@, self.forward_subscriptions); }
@ loop 0
    invariant self.parser.p.wf(), self.forward_subscriptions == old(self).forward_subscriptions, self.parser.p.same_opts(&old(self).parser.p), self.parser.log@.len() >= old(self).parser.log@.len(),
        RestMid_quiet(old(self).subs.m(), old(self).parser.log@, self.parser.log@, self.subs.m(), self.forward_subscriptions),
@ loopbody 0
    let ghost s0 = self.subs.m();
@ loopend 0
    proof { assert(RestMid_step(s0, self.parser.log@.last(), self.subs.m(), self.forward_subscriptions, None)); RestMid_goes_on(old(self).subs.m(), old(self).parser.log@, self.parser.log@, s0, self.subs.m(), self.forward_subscriptions); }
@ closure 0
    |$p0: Deep| -> (o: RestMid) ensures o == RestMid::Deep($p0)
@ closure 1
    |$p0: Inner| -> (o: RestMid) ensures o == RestMid::Z($p0)
@@ fn clients::RestMid::stream
@ output
Result<__yule_log_derive_RestMid<R>, crate::errors::ULogError>
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::RestMid::builder
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
