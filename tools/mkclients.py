#!/usr/bin/env python3
"""Writes clients/src/lib.rs (what the derive macros are given) and specs/80_clients.spec (the
contracts of what they make of it) from the table below. The contracts come from the documented
meaning of the attributes, not from the macros."""
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# struct, attributes, subscription name, multi id, fields (name, name in the log, type)
S = [
    ("Inner", "", "inner", 0, [("a", "a", "u8"), ("b", "b", "Vec<i16>")]),
    ("VehiclePose", '#[yule_log(subscription_name = "pose_estimate", multi_id = 2)]', "pose_estimate", 2, [
        ("timestamp", "timestamp", "u64"), ("x", "x", "f32"), ("y", "y_raw", "Option<i16>"), ("name", "name", "Vec<CChar>"),
        ("inner", "part", "Inner"), ("many", "many", "Option<Vec<Inner>>"), ("armed", "armed", "bool"), ("one", "one", "Option<Inner>")]),
    ("FirstPose", '#[yule_log(subscription_name = "pose_estimate")]', "pose_estimate", 0, [("x", "x", "Option<f64>"), ("parts", "parts", "Vec<Inner>")]),
    ("GpsRawData2", "", "gps_raw_data2", 0, [
        ("c", "c", "CChar"), ("i_8", "i8", "i8"), ("i_16", "i16", "i16"), ("i_32", "i32", "i32"), ("i_64", "i64", "i64"),
        ("u_16", "u16", "u16"), ("u_32", "u32", "Option<u32>"), ("d", "d", "f64")]),
    ("Arrays", "#[yule_log(multi_id = 1)]", "arrays", 1, [
        ("v_i8", "v_i8", "Vec<i8>"), ("v_i32", "v_i32", "Vec<i32>"), ("v_i64", "v_i64", "Vec<i64>"), ("v_u8", "v_u8", "Vec<u8>"), ("v_u16", "v_u16", "Option<Vec<u16>>"),
        ("v_u32", "v_u32", "Vec<u32>"), ("v_u64", "v_u64", "Vec<u64>"), ("v_f32", "v_f32", "Vec<f32>"), ("v_f64", "v_f64", "Vec<f64>"), ("v_bool", "v_bool", "Vec<bool>")]),
    ("Maybe", "#[yule_log(multi_id = 255)]", "maybe", 255, [("timestamp", "timestamp", "Option<u64>"), ("set", "set", "Option<bool>"), ("text", "text", "Option<Vec<CChar>>")]),
    ("Deep", '#[yule_log(subscription_name = "Deep.1")]', "Deep.1", 0, [
        ("opts", "opts", "Vec<Maybe>"), ("maybe", "maybe", "Maybe"), ("pose", "_padding0", "Option<VehiclePose>"), ("Z", "Z", "u8"), ("_q", "_q", "Option<Vec<f32>>")]),
    ("Paths", "", "paths", 0, [("o", "o", "std::option::Option<u8>"), ("v", "v", "std::vec::Vec<i16>"), ("w", "w", "::std::option::Option<::std::vec::Vec<crate::Maybe>>"), ("x", "x", "core::option::Option<crate::Inner>")]),
    ("Empty", "", "empty", 0, []),
    ("GPSFix2D", "", "gps_fix2_d", 0, [("hdop", "HDOP", "f32"), ("Lat", "Lat", "Option<f64>")]),
]
# enum, variants (name, struct), the variant that receives the rest, its position
E = [
    ("All", [("FirstPose", "FirstPose"), ("Pose", "VehiclePose"), ("Gps", "GpsRawData2")], "Other", 3),
    ("Few", [("Gps", "GpsRawData2"), ("A", "Arrays")], None, 0),
    ("RestFirst", [("Pose", "VehiclePose")], "Rest", 0),
    ("One", [("Only", "Maybe")], None, 0),
    ("ByPath", [("P", "crate::Paths"), ("E", "self::Empty")], "Rest", 2),
    ("RestMid", [("Deep", "Deep"), ("Z", "Inner")], "Y", 1),
]
# What a type's path stands for.
def plain(t):
    return re.sub(r"(::)?\b(std|core)::(option|vec)::|\b(crate|self)::", "", t)


RAW_S, RAW_E = S, E
S = [(n, a, sub, m, [(f, l, plain(t)) for f, l, t in fs]) for n, a, sub, m, fs in S]
E = [(n, [(v, plain(t)) for v, t in vs], r, at) for n, vs, r, at in E]
SUB = {s[0]: (s[2], s[3]) for s in S}


def source():
    o = ["//! What the derive macros are given. Written by tools/mkclients.py.\n#![allow(dead_code)]\n"
         "use yule_log::model::msg::UlogMessage;\nuse yule_log::model::CChar;\n"]
    for name, attr, _, _, fields in RAW_S:
        o.append("#[derive(yule_log::ULogData)]\n" + (attr + "\n" if attr else "") + f"pub struct {name} {{\n")
        for f, log, ty in fields:
            if f != log:
                o.append(f'    #[yule_log(field_name = "{log}")]\n')
            o.append(f"    pub {f}: {ty},\n")
        o.append("}\n")
    for name, vs, rest, at in RAW_E:
        l = [f"    {v}({t}),\n" for v, t in vs]
        if rest:
            l.insert(at, f"    #[yule_log(forward_other)]\n    {rest}(UlogMessage),\n")
        o.append(f"#[derive(yule_log::ULogMessages)]\npub enum {name} {{\n" + "".join(l) + "}\n")
    return "".join(o)


def opt(ty):
    return ty[7:-1] if ty.startswith("Option<") else None


HEAD = '''## Written by tools/mkclients.py.
@@ path yule_log::parser crate::clients::w
@@ path yule_log::builder crate::clients::w
@@ path yule_log crate
@@ path std::prelude -
@@ callpath Into::into x_into_of
@@ callpath &Into::into x_into_of
@@ rename join x_join
@@ rename extend x_extend
@@ module clients
@ items
use crate::ulog::*;
use crate::model::{def, inst};
use crate::errors::ULogError;
use crate::macro_utils::{found, okv, FromField, ULogAccessor, ULogAccessorFactory};
use crate::xstd::collections::{map_of, map_of_has, map_of_key, set_of_has, set_of_el};
use crate::prelude::XIntoIterator as IntoIterator;
use crate::prelude::XInto as Into;
use crate::builder::texts_of;
broadcast use {map_of_has, map_of_key, set_of_has, set_of_el, seq_push_drop, svs_push_all};
impl XToString for ULogError {
    uninterp spec fn disp(&self) -> Seq<char>;
    #[verifier::external_body]
    fn x_to_string(&self) -> String { unimplemented!() }
}
/// The field of a definition with that name: the last one, if there are more.
pub open spec fn at(d: SDef, i: int, name: Seq<char>) -> bool {
    0 <= i < d.fields.len() && d.fields[i].name == name && forall|j: int| i < j < d.fields.len() ==> (#[trigger] d.fields[j]).name != name
}
pub open spec fn defines(d: SDef, name: Seq<char>) -> bool { exists|i: int| 0 <= i < d.fields.len() && (#[trigger] d.fields[i]).name == name }
pub open spec fn opt_at(d: SDef, i: Option<usize>, name: Seq<char>) -> bool {
    match i { Some(i) => at(d, i as int, name), None => !defines(d, name) }
}
/// A field of a message, converted.
pub open spec fn fld<T: FromField>(f: inst::Format, i: usize, name: Seq<char>, v: Option<T>) -> bool {
    match found(f.fields@, i as int, name) { None => v is None, Some(x) => T::reads(x, v) }
}
pub open spec fn ofld<T: FromField>(f: inst::Format, i: Option<usize>, name: Seq<char>, v: Option<Option<T>>) -> bool {
    match i {
        None => v == Some(None::<T>),
        Some(i) => match v { None => fld::<T>(f, i, name, None), Some(w) => w is Some && fld(f, i, name, w) },
    }
}
pub mod w {
    //! The parser and its builder, with a record of what the parser has delivered. Nothing here is trusted but the bound on the bytes read.
    use vstd::prelude::*;
    use crate::prelude::*;
    use crate::ulog::*;
    use crate::errors::ULogError;
    use crate::model::msg::UlogMessage;
    use crate::model::{def, Shared};
    use crate::xstd::collections::HashSet;
    use crate::xstd::io::Read;
    use crate::builder::Wants;
    verus! {
    /// A message (or none: an error), and the definitions that are known after it.
    pub ghost struct Step { pub msg: Option<UlogMessage>, pub fs: Map<Seq<char>, SDef> }
    pub struct ULogParser<R: Read> { pub p: crate::parser::ULogParser<R>, pub log: Ghost<Seq<Step>> }
    impl<R: Read> ULogParser<R> {
        pub open spec fn allow(&self) -> Option<Set<Seq<char>>> { self.p.allow() }
        pub open spec fn fresh(&self) -> bool { self.p.wf() && self.p.subs() == Map::<u16, SSub>::empty() && self.log@.len() == 0 }
        pub fn next(&mut self) -> (r: Option<Result<UlogMessage, ULogError>>)
            requires old(self).p.wf(),
            ensures
                final(self).p.wf(), final(self).p.same_opts(&old(self).p),
                r is None ==> final(self).log@ == old(self).log@,
                r is Some ==> final(self).log@ == old(self).log@.push(Step { msg: match r->Some_0 { Ok(m) => Some(m), Err(_) => None }, fs: final(self).p.fs() }),
                r is Some ==> final(self).log@.len() == old(self).log@.len() + 1 && final(self).log@.drop_last() == old(self).log@,
        {
            // fewer than 2^64 bytes are ever read
            assume(self.p.datastream.num_bytes_read + 65535 + 19 <= usize::MAX);
            let r = self.p.next();
            proof { if r is Some { let x = Step { msg: match r->Some_0 { Ok(m) => Some(m), Err(_) => None }, fs: self.p.fs() }; assert(self.log@.push(x).drop_last() =~= self.log@); self.log@ = self.log@.push(x); } }
            r
        }
        pub fn get_format(&self, name: &str) -> (r: Result<Shared<def::Format>, ULogError>)
            ensures r is Ok <==> self.p.fs().contains_key(name@), r is Ok ==> (*r->Ok_0).sv() == self.p.fs()[name@],
        { self.p.get_format(name) }
        pub fn set_subscription_allow_list(&mut self, set: HashSet<String>)
            requires old(self).fresh(),
            ensures final(self).fresh(), final(self).allow() == Some(set.m()),
                final(self).p.include_header == old(self).p.include_header && final(self).p.include_timestamp == old(self).p.include_timestamp && final(self).p.include_padding == old(self).p.include_padding,
        { self.p.set_subscription_allow_list(set) }
    }
    pub struct ULogParserBuilder<R: Read> { pub b: crate::builder::ULogParserBuilder<R> }
    impl<R: Read> ULogParserBuilder<R> {
        pub fn new(reader: R) -> (r: Self) ensures r.b.wants() == (Wants { header: false, timestamp: false, padding: false, allow: None })
        { ULogParserBuilder { b: crate::builder::ULogParserBuilder::new(reader) } }
        pub fn include_header(self, v: bool) -> (r: Self) ensures r.b.wants() == (Wants { header: v, ..self.b.wants() }) { ULogParserBuilder { b: self.b.include_header(v) } }
        pub fn include_timestamp(self, v: bool) -> (r: Self) ensures r.b.wants() == (Wants { timestamp: v, ..self.b.wants() }) { ULogParserBuilder { b: self.b.include_timestamp(v) } }
        pub fn include_padding(self, v: bool) -> (r: Self) ensures r.b.wants() == (Wants { padding: v, ..self.b.wants() }) { ULogParserBuilder { b: self.b.include_padding(v) } }
        pub fn build(self) -> (r: Result<ULogParser<R>, ULogError>)
            ensures r is Ok && r->Ok_0.fresh() && r->Ok_0.allow() == self.b.wants().allow,
                r->Ok_0.p.include_header == self.b.wants().header && r->Ok_0.p.include_timestamp == self.b.wants().timestamp && r->Ok_0.p.include_padding == self.b.wants().padding,
        {
            match self.b.build() {
                Ok(p) => Ok(ULogParser { p, log: Ghost(Seq::empty()) }),
                Err(e) => Err(e),
            }
        }
    }
    } // verus!
}
'''


def lit(s):
    return f'"{s}"@'


def struct_spec(o, items, name, sub, multi, fields):
    A = name + "Accessor"
    need = [f for f in fields if not opt(f[2])]
    miss = " || ".join(f"!defines(d, {lit(l)})" for _, l, _ in need) or "false"
    got = " && ".join([f"at(d, x.{f}_index as int, {lit(l)})" if not opt(t) else f"opt_at(d, x.{f}_index, {lit(l)})" for f, l, t in fields]) or "true"
    o.append(f'''@@ impl clients::<yule_log::macro_utils::ULogAccessorFactory for {name}>
@ items
    /// Every field that is needed is in the definition, and is found there.
    open spec fn binds(d: SDef, a: Option<{A}>) -> bool {{
        match a {{ None => {miss}, Some(x) => {got} }}
    }}
@@ impl clients::<yule_log::macro_utils::ULogAccessor for {A}>
@ items
    open spec fn gives(&self, f: inst::Format, o: Option<{name}>) -> bool {{
        match o {{
            Some(s) => {" && ".join(((f"fld::<{t}>(f, self.{n}_index, {lit(l)}, Some(s.{n}))" if not opt(t) else f"ofld::<{opt(t)}>(f, self.{n}_index, {lit(l)}, Some(s.{n}))") for n, l, t in fields)) or "true"},
            None => {" || ".join(((f"fld::<{t}>(f, self.{n}_index, {lit(l)}, None)" if not opt(t) else f"ofld::<{opt(t)}>(f, self.{n}_index, {lit(l)}, None)") for n, l, t in fields)) or "false"},
        }}
    }}
@@ fn clients::{A}::from_format
@ spec
    ensures /*@[C13]*/ {name}::binds($1.sv(), okv(r)),
@ closure 0
    |$p0: (usize, &def::Field)| -> (o: (crate::model::Shared<str>, usize)) ensures o.0@ == $p0.1.name@, o.1 == $p0.0
@@ fn clients::<yule_log::macro_utils::ULogAccessorFactory for {name}>::from_format
@@ fn clients::<yule_log::macro_utils::ULogAccessor for {A}>::get_data
''')


def enum_spec(o, items, name, vs, rest):
    Acc, B, H = f"__yule_log_derive_{name}Accessor", f"__yule_log_derive_{name}Builder", f"__yule_log_derive_{name}"
    has = "true" if rest else "false"
    names = " || ".join(f"n == {lit(SUB[t][0])}" for _, t in vs)
    other = (lambda m: f"out == Some(Some({name}::{rest}({m})))") if rest else (lambda m: "out is None")
    st = f"{name}_step"
    clo = "".join(f"@ closure {i}\n    |$p0: {t}| -> (o: {name}) ensures o == {name}::{v}($p0)\n" for i, (v, t) in enumerate(vs))
    arms = ""
    for v, t in vs:
        s, m = SUB[t]
        arms += f'''if x.message_name@ == {lit(s)} && x.multi_id == {m} {{
                if !h.fs.contains_key(x.message_name@) {{ s1 == s0.remove(x.msg_id) && out == Some(None::<{name}>) }}
                else {{ exists|a: Option<{t}Accessor>| #[trigger] {t}::binds(h.fs[x.message_name@], a) && match a {{
                    None => s1 == s0.remove(x.msg_id) && out == Some(None::<{name}>),
                    Some(a) => s1 == s0.remove(x.msg_id).insert(x.msg_id, {Acc}::{v}(a)) && out is None }} }}
            }} else '''
    gv = ", ".join(f"{Acc}::{v}(a) => exists|o: Option<{t}>| #[trigger] a.gives(d.data, o) && out == Some(match o {{ None => None, Some(x) => Some({name}::{v}(x)) }})" for v, t in vs)
    fwd = f"if fwd {{ {other('UlogMessage::AddSubscription(x)')} }} else {{ out is None }}" if rest else "out is None"
    items.append(f'''
impl XView for {Acc} {{ type SV = {Acc}; open spec fn sv(&self) -> {Acc} {{ *self }} }}
/// What one message does to the table of subscriptions, and what the iterator delivers for it: nothing, an error or an item.
pub open spec fn {st}(s0: Map<u16, {Acc}>, h: w::Step, s1: Map<u16, {Acc}>, fwd: bool, out: Option<Option<{name}>>) -> bool {{
    match h.msg {{
        None => s1 == s0 && out == Some(None::<{name}>),
        Some(UlogMessage::AddSubscription(x)) =>
            {arms}{{ s1 == s0.remove(x.msg_id) && {fwd} }},
        Some(UlogMessage::LoggedData(d)) => s1 == s0 && if s0.contains_key(d.msg_id) {{ match s0[d.msg_id] {{ {gv} }} }} else {{ {other('UlogMessage::LoggedData(d)')} }},
        Some(m) => s1 == s0 && {other('m')},
    }}
}}
/// From l0 to l1, nothing is delivered.
pub open spec fn {name}_quiet(s0: Map<u16, {Acc}>, l0: Seq<w::Step>, l1: Seq<w::Step>, s1: Map<u16, {Acc}>, fwd: bool) -> bool {{
    exists|ss: Seq<Map<u16, {Acc}>>| #[trigger] {name}_run(s0, l0, l1, ss, fwd) && ss.last() == s1
}}
/// The tables of subscriptions from one message to the next.
pub open spec fn {name}_run(s0: Map<u16, {Acc}>, l0: Seq<w::Step>, l1: Seq<w::Step>, ss: Seq<Map<u16, {Acc}>>, fwd: bool) -> bool {{
    l0.len() <= l1.len() && l1.take(l0.len() as int) == l0 && ss.len() == l1.len() - l0.len() + 1 && ss[0] == s0
        && forall|i: int| 0 <= i < ss.len() - 1 ==> {st}(#[trigger] ss[i], l1[l0.len() + i], ss[i + 1], fwd, None)
}}
pub proof fn {name}_goes_on(s0: Map<u16, {Acc}>, l0: Seq<w::Step>, l1: Seq<w::Step>, s: Map<u16, {Acc}>, s1: Map<u16, {Acc}>, fwd: bool)
    requires l1.len() > l0.len(), {name}_quiet(s0, l0, l1.drop_last(), s, fwd), {st}(s, l1.last(), s1, fwd, None)
    ensures {name}_quiet(s0, l0, l1, s1, fwd)
{{
    hide({st});
    let ss = choose|ss: Seq<Map<u16, {Acc}>>| #[trigger] {name}_run(s0, l0, l1.drop_last(), ss, fwd) && ss.last() == s;
    let n = ss.push(s1);
    assert(l1.take(l0.len() as int) =~= l1.drop_last().take(l0.len() as int));
    assert forall|i: int| 0 <= i < n.len() - 1 implies {st}(#[trigger] n[i], l1[l0.len() + i], n[i + 1], fwd, None) by {{
        if i < ss.len() - 1 {{ assert({st}(ss[i], l1.drop_last()[l0.len() + i], ss[i + 1], fwd, None)); }}
    }}
    assert({name}_run(s0, l0, l1, n, fwd));
}}
pub proof fn {name}_starts(s0: Map<u16, {Acc}>, l0: Seq<w::Step>, fwd: bool) ensures {name}_quiet(s0, l0, l0, s0, fwd)
{{ assert(l0.take(l0.len() as int) =~= l0); assert({name}_run(s0, l0, l0, seq![s0], fwd)); }}
''')
    o.append(f'''@@ impl clients::<::core::fmt::Debug for {B}>
@ drop
    Debug is not part of any listed property
@@ item clients::{H}
@ after
impl<R: crate::xstd::io::Read> {H}<R> {{
    /// It has just been made, for these names.
    pub open spec fn ready(&self, more: Seq<String>) -> bool {{
        &&& self.parser.fresh() && self.subs.m() == Map::<u16, {Acc}>::empty()
        &&& self.parser.allow() is Some && forall|n: Seq<char>| #[trigger] self.parser.allow()->Some_0.contains(n) <==> ({names} || svs(more).to_set().contains(n))
        &&& self.parser.p.include_timestamp && self.parser.p.include_padding && !self.parser.p.include_header
    }}
}}
@@ fn clients::{B}::new
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
@@ fn clients::{B}::add_subscription
@ spec
    ensures /*@[C14]*/ r is Ok <==> {has},
        /*@[C14]*/ r is Ok ==> exists|t: String| #![trigger self.extra_allow_list@.push(t)] $1.into_ok(t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@.push(t),
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::{B}::extend_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> {has},
        /*@[C14]*/ r is Ok ==> exists|t: Seq<String>| #![trigger self.extra_allow_list@ + t] texts_of($1.its(), t) && r->Ok_0.extra_allow_list@ == self.extra_allow_list@ + t,
        /*@[C14]*/ r is Ok ==> r->Ok_0.reader == self.reader && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::{B}::forward_subscriptions
@ spec
    ensures /*@[C14]*/ r is Ok <==> !$1 || {has},
        /*@[C14]*/ r is Ok ==> r->Ok_0.forward_subscriptions == $1 && r->Ok_0.reader == self.reader && r->Ok_0.extra_allow_list == self.extra_allow_list,
@@ fn clients::{B}::stream
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(self.extra_allow_list@) && r->Ok_0.forward_subscriptions == self.forward_subscriptions,
@@ fn clients::{H}::new
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::{H}::extend_allow_list
@ spec
    requires old(self).ready(Seq::<String>::empty()),
    ensures /*@[C14]*/ final(self).ready($1@) && final(self).forward_subscriptions == old(self).forward_subscriptions,
@@ fn clients::{H}::forward_subscriptions
@ spec
    ensures /*@[C14]*/ final(self).forward_subscriptions == $1, final(self).parser == old(self).parser, final(self).subs == old(self).subs,
@@ impl clients::<Iterator for {H}>
@ header
impl<R: crate::xstd::io::Read> {H}<R>
@@ fn clients::<Iterator for {H}>::next
@ attr
#[verifier::exec_allows_no_decreases_clause]
@ spec
    requires old(self).parser.p.wf(),
    ensures
        final(self).parser.p.wf(), final(self).forward_subscriptions == old(self).forward_subscriptions, /*@[C14]*/ final(self).parser.p.same_opts(&old(self).parser.p),
        /*@[C14]*/ r is None ==> {name}_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@, final(self).subs.m(), old(self).forward_subscriptions),
        /*@[C14]*/ r is Some ==> exists|s: Map<u16, {Acc}>| #[trigger] {name}_quiet(old(self).subs.m(), old(self).parser.log@, final(self).parser.log@.drop_last(), s, old(self).forward_subscriptions)
            && final(self).parser.log@.len() > old(self).parser.log@.len() && {st}(s, final(self).parser.log@.last(), final(self).subs.m(), old(self).forward_subscriptions, Some(okv(r->Some_0))),
@ prologue
    proof {{ {name}_starts(self.subs.m(), self.parser.log@, self.forward_subscriptions); }}
@ loop 0
    invariant self.parser.p.wf(), self.forward_subscriptions == old(self).forward_subscriptions, self.parser.p.same_opts(&old(self).parser.p), self.parser.log@.len() >= old(self).parser.log@.len(),
        {name}_quiet(old(self).subs.m(), old(self).parser.log@, self.parser.log@, self.subs.m(), self.forward_subscriptions),
@ loopbody 0
    let ghost s0 = self.subs.m();
@ loopend 0
    proof {{ assert({st}(s0, self.parser.log@.last(), self.subs.m(), self.forward_subscriptions, None)); {name}_goes_on(old(self).subs.m(), old(self).parser.log@, self.parser.log@, s0, self.subs.m(), self.forward_subscriptions); }}
{clo}@@ fn clients::{name}::stream
@ output
Result<{H}<R>, crate::errors::ULogError>
@ spec
    ensures /*@[C14]*/ r is Ok && r->Ok_0.ready(Seq::<String>::empty()) && !r->Ok_0.forward_subscriptions,
@@ fn clients::{name}::builder
@ spec
    ensures /*@[C14]*/ r.extra_allow_list@.len() == 0 && !r.forward_subscriptions, r.reader == $1,
''')


def spec():
    o, items = [], []
    for s in S:
        struct_spec(o, items, s[0], s[2], s[3], s[4])
    for e in E:
        enum_spec(o, items, e[0], e[1], e[2])
    paths = "".join(f"@@ path crate::{s[0]} crate::clients::{s[0]}\n" for s in S)
    return HEAD.replace("@@ path std::prelude", paths + "@@ path std::prelude") + "".join(items) + "".join(o)


open(os.path.join(ROOT, "clients/src/lib.rs"), "w").write(source())
open(os.path.join(ROOT, "specs/80_clients.spec"), "w").write(spec())
