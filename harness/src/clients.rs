//! Clients made with the derive macros, and what they must receive.
use crate::direct::*;
use crate::dict::*;
use crate::drive::*;
use crate::gen::*;
use crate::props::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::view::*;
use std::collections::HashMap;
use yule_log::macro_utils::{FromField, ULogAccessor, ULogAccessorFactory};
use yule_log::model::msg::UlogMessage;
use yule_log::model::{def, inst, CChar};
use yule_log::{ULogData, ULogMessages};

// ------------------------------------------------------------------ C13, C14

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    S(Ty),
    A(Ty),
    N(Vec<MemberSpec>),
    NA(Vec<MemberSpec>),
}
#[derive(Clone, Debug, PartialEq)]
struct MemberSpec {
    name: &'static str,
    kind: Kind,
    optional: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum MV {
    S(Ty, u64),
    A(Ty, Vec<u64>),
    N(Vec<Option<MV>>),
    NA(Vec<Vec<Option<MV>>>),
}
trait Member {
    fn kind() -> (Kind, bool);
    fn view(&self) -> Option<MV>;
}
trait Client {
    fn spec() -> Vec<MemberSpec>;
    fn fields(&self) -> Vec<Option<MV>>;
}
macro_rules! prim {
    ($($t:ty, $ty:ident, |$x:ident| $bits:expr;)*) => {$(
        impl Member for $t {
            fn kind() -> (Kind, bool) { (Kind::S(Ty::$ty), false) }
            fn view(&self) -> Option<MV> { let $x = *self; Some(MV::S(Ty::$ty, $bits)) }
        }
        impl Member for Vec<$t> {
            fn kind() -> (Kind, bool) { (Kind::A(Ty::$ty), false) }
            fn view(&self) -> Option<MV> { Some(MV::A(Ty::$ty, self.iter().map(|v| { let $x = *v; $bits }).collect())) }
        }
    )*};
}
prim! {
    u8, U8, |x| x as u64; u16, U16, |x| x as u64; u32, U32, |x| x as u64; u64, U64, |x| x;
    i8, I8, |x| x as u8 as u64; i16, I16, |x| x as u16 as u64; i32, I32, |x| x as u32 as u64; i64, I64, |x| x as u64;
    f32, F32, |x| x.to_bits() as u64; f64, F64, |x| x.to_bits(); bool, Bool, |x| x as u64; CChar, Char, |x| x.0 as u64;
}
impl<T: Client> Member for Vec<T> {
    fn kind() -> (Kind, bool) {
        (Kind::NA(T::spec()), false)
    }
    fn view(&self) -> Option<MV> {
        Some(MV::NA(self.iter().map(|x| x.fields()).collect()))
    }
}
impl<T: Member> Member for Option<T> {
    fn kind() -> (Kind, bool) {
        (T::kind().0, true)
    }
    fn view(&self) -> Option<MV> {
        self.as_ref().and_then(|x| x.view())
    }
}
macro_rules! client {
    ($(#[$a:meta])* $name:ident { $($(#[$fa:meta])* $f:ident : ($($t:tt)+) = $ulog:literal),* $(,)? } $nest:ident) => {
        #[derive(ULogData)]
        $(#[$a])*
        #[allow(non_snake_case)]
        pub struct $name { $($(#[$fa])* pub $f: $($t)+),* }
        impl Client for $name {
            fn spec() -> Vec<MemberSpec> {
                vec![$({ let (kind, optional) = <$($t)+ as Member>::kind(); MemberSpec { name: $ulog, kind, optional } }),*]
            }
            fn fields(&self) -> Vec<Option<MV>> { vec![$(self.$f.view()),*] }
        }
        client!(@$nest $name);
    };
    (@nested $name:ident) => {
        impl Member for $name {
            fn kind() -> (Kind, bool) { (Kind::N(<$name as Client>::spec()), false) }
            fn view(&self) -> Option<MV> { Some(MV::N(self.fields())) }
        }
    };
    (@top $name:ident) => {};
}
client!(Inner { x: (f32) = "x", n: (Vec<u16>) = "n", flag: (Option<bool>) = "flag" } nested);
client!(Leaf { v: (i64) = "v" } nested);
client!(Maybe { p: (Option<u8>) = "p", q: (Option<Leaf>) = "q" } nested);
client!(Mid { timestamp: (u64) = "timestamp", leaf: (Leaf) = "leaf", leaves: (Vec<Leaf>) = "leaves" } nested);
client!(
    #[yule_log(subscription_name = "scalars")]
    AllScalars {
        timestamp: (u64) = "timestamp", a: (u8) = "a", b: (u16) = "b", c: (u32) = "c", d: (u64) = "d", e: (i8) = "e", f: (i16) = "f",
        g: (i32) = "g", h: (i64) = "h", i: (f32) = "i", j: (f64) = "j", k: (bool) = "k", l: (CChar) = "l"
    } top);
client!(ArrayStruct {
        a: (Vec<u8>) = "a", b: (Vec<u16>) = "b", c: (Vec<u32>) = "c", d: (Vec<u64>) = "d", e: (Vec<i8>) = "e", f: (Vec<i16>) = "f",
        g: (Vec<i32>) = "g", h: (Vec<i64>) = "h", i: (Vec<f32>) = "i", j: (Vec<f64>) = "j", k: (Vec<bool>) = "k", l: (Vec<CChar>) = "l"
    } top);
client!(
    #[yule_log(subscription_name = "opts", multi_id = 2)]
    Opts {
        o1: (Option<f32>) = "o1", o2: (Option<Vec<u16>>) = "o2", #[yule_log(field_name = "renamed_x")] x: (i32) = "renamed_x",
        #[yule_log(field_name = "first")] last: (Option<u8>) = "first", #[yule_log(field_name = "last")] first: (Option<u8>) = "last",
        timestamp: (Option<u64>) = "timestamp", inner: (Option<Inner>) = "inner", inners: (Option<Vec<Inner>>) = "inners"
    } top);
client!(
    #[yule_log(subscription_name = "opts")]
    OptsZero { renamed_x: (i32) = "renamed_x", o1: (f32) = "o1" } top);
client!(Nested { inner: (Inner) = "inner", inners: (Vec<Inner>) = "inners", maybes: (Vec<Maybe>) = "maybes", maybe: (Maybe) = "maybe", mid: (Mid) = "mid", by_path: (std::option::Option<::std::vec::Vec<crate::clients::Leaf>>) = "by_path", bytes: (std::vec::Vec<u8>) = "bytes", timestamp: (u64) = "timestamp" } top);
client!(GPSFix2D { timestamp: (u64) = "timestamp", #[yule_log(field_name = "HDOP")] hdop: (f32) = "HDOP", Lat: (Option<f64>) = "Lat" } top);
client!(Tiny { timestamp: (u64) = "timestamp" } top);

#[derive(ULogMessages)]
pub enum Plain {
    AllScalars(AllScalars),
    Arrays(ArrayStruct),
    Opts(Opts),
    Nested(Nested),
    Tiny(Tiny),
    Fix(GPSFix2D),
}
#[derive(ULogMessages)]
pub enum Forwarding {
    Nested(Nested),
    Tiny(Tiny),
    Zero(OptsZero),
    Two(Opts),
    #[yule_log(forward_other)]
    Rest(UlogMessage),
    Scalars(AllScalars),
    Fix(GPSFix2D),
}
const MAPPED: [(&str, u8, &str); 7] = [("gps_fix2_d", 0, "fix"), ("tiny", 0, "tiny"), ("scalars", 0, "scalars"), ("array_struct", 0, "array_struct"), ("opts", 2, "opts2"), ("opts", 0, "opts0"), ("nested", 0, "nested")];
fn spec_of(v: &str) -> Vec<MemberSpec> {
    match v {
        "scalars" => AllScalars::spec(),
        "array_struct" => ArrayStruct::spec(),
        "opts2" => Opts::spec(),
        "opts0" => OptsZero::spec(),
        "tiny" => Tiny::spec(),
        "fix" => GPSFix2D::spec(),
        _ => Nested::spec(),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum DItem {
    Mapped(&'static str, Vec<Option<MV>>),
    Other(Item),
}

fn has_required(spec: &[MemberSpec], f: &FormatV) -> bool {
    spec.iter().all(|m| m.optional || f.fields.iter().any(|x| x.0 == m.name))
}
fn convert(spec: &[MemberSpec], i: &Inst) -> Option<Vec<Option<MV>>> {
    if !has_required(spec, &i.def) {
        return None;
    }
    spec.iter()
        .map(|m| {
            if !i.def.fields.iter().any(|x| x.0 == m.name) {
                return Some(None);
            }
            let f = i.fields.iter().rev().find(|x| x.name == m.name)?;
            Some(Some(match (&m.kind, &f.val) {
                (Kind::S(t), Val::S(u, x)) if t == u => MV::S(*t, *x),
                (Kind::A(t), Val::A(u, x)) if t == u => MV::A(*t, x.clone()),
                (Kind::N(s), Val::O(x)) => MV::N(convert(s, x)?),
                (Kind::NA(s), Val::AO(a)) => MV::NA(a.iter().map(|x| convert(s, x)).collect::<Option<Vec<_>>>()?),
                _ => return None,
            }))
        })
        .collect()
}
struct Expect {
    items: Vec<(Option<DItem>, bool)>, // None is an error; the flag says that a mapped message or subscription is concerned
}
fn expect(b: &[u8], variants: &[&'static str], extra: &[String], forward: bool, forward_subs: bool) -> Expect {
    let mut allow: Vec<String> = MAPPED.iter().filter(|m| variants.contains(&m.2)).map(|m| m.0.to_string()).collect();
    allow.extend(extra.iter().cloned());
    let run = run(b, &Cfg { header: false, ts: true, pad: true, allow: Some(allow) }, 64);
    let mut formats: HashMap<String, FormatV> = HashMap::new();
    let mut subs: HashMap<u16, &'static str> = HashMap::new();
    let mut items = vec![];
    for e in run.items {
        match e.res {
            Err(_) => items.push((None, false)),
            Ok(Item::Sub { multi, id, name }) => {
                subs.remove(&id);
                let v = MAPPED.iter().find(|m| m.0 == name && m.1 == multi && variants.contains(&m.2));
                match v {
                    Some(m) => {
                        if has_required(&spec_of(m.2), &formats[&name]) {
                            subs.insert(id, m.2);
                        } else {
                            items.push((None, true));
                        }
                    }
                    None => {
                        if forward && forward_subs {
                            items.push((Some(DItem::Other(Item::Sub { multi, id, name })), false));
                        }
                    }
                }
            }
            Ok(Item::Data { ts, msg_id, data }) => match subs.get(&msg_id) {
                Some(v) => items.push((convert(&spec_of(v), &data).map(|x| DItem::Mapped(v, x)), true)),
                None => {
                    if forward {
                        items.push((Some(DItem::Other(Item::Data { ts, msg_id, data })), false));
                    }
                }
            },
            Ok(i) => {
                if let Item::Format(f) = &i {
                    formats.insert(f.name.clone(), f.clone());
                }
                if forward {
                    items.push((Some(DItem::Other(i)), false));
                }
            }
        }
    }
    Expect { items }
}

/// Formats for the mapped subscriptions: members in any order, with other fields, sometimes wrong.
fn client_log(r: &mut Rng) -> Vec<u8> {
    let mut p = BASE;
    p.malformed = 0;
    p.n_formats = 0;
    p.spaces = 0;
    let seed = r.u64();
    let mut r2 = Rng::new(seed, 1);
    let mut g = Gen::new(&mut r2, p);
    let wrong = *r.pick(&[0usize, 0, 3, 10]);
    fn build(name: &str, spec: &[MemberSpec], r: &mut Rng, wrong: usize, top: bool, done: &mut Vec<FormatV>) {
        let mut fields: Vec<(String, TypeV)> = vec![];
        for m in spec {
            if r.chance(if m.optional { 30 } else { wrong }, 100) && !(top && m.name == "timestamp") {
                continue;
            }
            let sub_name = format!("{name}_{}", m.name);
            let mut ty = match &m.kind {
                Kind::S(t) => TypeV { base: Base::P(*t), arr: None },
                Kind::A(t) => TypeV { base: Base::P(*t), arr: Some(r.below(4)) },
                Kind::N(s) => {
                    build(&sub_name, s, r, wrong, false, done);
                    TypeV { base: Base::O(sub_name.clone()), arr: None }
                }
                Kind::NA(s) => {
                    build(&sub_name, s, r, wrong, false, done);
                    TypeV { base: Base::O(sub_name.clone()), arr: Some(r.below(4)) }
                }
            };
            if r.chance(wrong, 100) && !(top && m.name == "timestamp") {
                match r.below(3) {
                    0 => ty.arr = if ty.arr.is_some() { None } else { Some(r.range(1, 2)) },
                    1 => ty.base = Base::P(*r.pick(&ALL_TY)),
                    _ => {
                        if let Base::P(t) = ty.base {
                            // same size, other meaning
                            ty.base = Base::P(match t {
                                Ty::U8 => Ty::I8, Ty::I8 => Ty::Bool, Ty::Bool => Ty::Char, Ty::Char => Ty::U8, Ty::U16 => Ty::I16, Ty::I16 => Ty::U16,
                                Ty::U32 => Ty::F32, Ty::F32 => Ty::I32, Ty::I32 => Ty::U32, Ty::U64 => Ty::F64, Ty::F64 => Ty::I64, Ty::I64 => Ty::U64,
                            });
                        }
                    }
                }
            }
            fields.push((m.name.to_string(), ty));
        }
        if top && !fields.iter().any(|f| f.0 == "timestamp") {
            fields.push(("timestamp".into(), TypeV { base: Base::P(Ty::U64), arr: None }));
        }
        for i in 0..r.below(4) {
            let t = *r.pick(&ALL_TY);
            let arr = if r.chance(1, 3) { Some(r.below(3)) } else { None };
            if r.chance(1, 4) && !spec.is_empty() {
                // a name like that of a member
                let of = r.pick(spec).name;
                let n = relative(r, of);
                if is_name(&n) && !spec.iter().any(|m| m.name == n) && !fields.iter().any(|f| f.0 == n) && n != "timestamp" && !n.starts_with("_padding") {
                    fields.push((n, TypeV { base: Base::P(t), arr }));
                }
            } else if r.chance(1, 2) {
                fields.push((format!("_padding{i}"), TypeV { base: Base::P(Ty::U8), arr: if r.chance(1, 4) { None } else { Some(r.range(1, 3)) } }));
            } else {
                fields.push((format!("extra{i}"), TypeV { base: Base::P(t), arr }));
            }
        }
        for i in (1..fields.len()).rev() {
            let j = r.below(i + 1);
            fields.swap(i, j);
        }
        done.push(FormatV { name: name.to_string(), fields });
    }
    let mut formats = vec![];
    for (name, _, v) in MAPPED {
        if v != "opts0" {
            let mut s = spec_of(v);
            if v == "opts2" && r.chance(2, 3) {
                // make the other view of the same subscription possible
                s.iter_mut().for_each(|m| if m.name == "o1" { m.optional = false });
            }
            build(name, &s, r, wrong, true, &mut formats);
        }
    }
    build("unmapped", &Leaf::spec(), r, 0, true, &mut formats);
    // formats whose names are like those of mapped ones, with the members of those
    let mut like = vec![];
    for _ in 0..r.below(3) {
        let (name, _, v) = *r.pick(&MAPPED);
        let n = relative(r, name);
        if is_name(&n) && !formats.iter().any(|f| f.name == n) {
            build(&n, &spec_of(v), r, 0, true, &mut formats);
            like.push(n);
        }
    }
    for f in formats {
        g.emit_this_format(f);
    }
    let mut names: Vec<String> = ["scalars", "array_struct", "opts", "nested", "unmapped", "opts", "tiny", "gps_fix2_d"].map(String::from).to_vec();
    names.extend(like);
    let ids = [0u16, 1, 2, 3, 300];
    if r.chance(1, 4) {
        g.emit(4);
    }
    if r.chance(1, 80) {
        // many of something
        let n = match number(r).filter(|n| *n <= 2000) {
            Some(n) => n as usize + 1,
            None => *r.pick(&[65usize, 129, 257, 513]),
        };
        let what = r.below(4);
        let of = r.pick(&["tiny", "scalars", "unmapped"]).to_string();
        for i in 0..n {
            match what {
                0 => g.push(*b"IPMQ".get(i % 4).unwrap(), vec![]),
                1 => g.emit_sub_of(0, (i * 977) as u16, &of),
                2 => g.emit_sub_of((i % 256) as u8, (i % 3) as u16, &of),
                _ => {
                    if g.subs.is_empty() {
                        g.emit_sub_of(0, 1, &of);
                    }
                    g.emit(3);
                }
            }
        }
    }
    for _ in 0..r.range(4, 24) {
        match r.below(10) {
            0..=2 => {
                let n = &r.pick(&names).clone();
                let multi = *r.pick(&[0u8, 0, 2, 2, 1]);
                let id = *r.pick(&ids);
                g.emit_sub_of(multi, id, n);
            }
            3 => {
                let a = *r.pick(&[2usize, 4, 6, 8, 9, 10, 12]);
                g.emit(a);
            }
            _ => {
                if g.subs.is_empty() {
                    let n = &r.pick(&names).clone();
                    g.emit_sub_of(if n == "opts" { 2 } else { 0 }, *r.pick(&ids), n);
                }
                if r.chance(1, 12) {
                    g.p.malformed = 60;
                }
                g.emit(3);
                g.p.malformed = 0;
            }
        }
    }
    g.bytes()
}

fn plain(m: Plain) -> DItem {
    match m {
        Plain::AllScalars(x) => DItem::Mapped("scalars", x.fields()),
        Plain::Arrays(x) => DItem::Mapped("array_struct", x.fields()),
        Plain::Opts(x) => DItem::Mapped("opts2", x.fields()),
        Plain::Nested(x) => DItem::Mapped("nested", x.fields()),
        Plain::Fix(x) => DItem::Mapped("fix", x.fields()),
        Plain::Tiny(x) => DItem::Mapped("tiny", x.fields()),
    }
}
fn forwarding(m: Forwarding) -> DItem {
    match m {
        Forwarding::Scalars(x) => DItem::Mapped("scalars", x.fields()),
        Forwarding::Zero(x) => DItem::Mapped("opts0", x.fields()),
        Forwarding::Two(x) => DItem::Mapped("opts2", x.fields()),
        Forwarding::Nested(x) => DItem::Mapped("nested", x.fields()),
        Forwarding::Fix(x) => DItem::Mapped("fix", x.fields()),
        Forwarding::Tiny(x) => DItem::Mapped("tiny", x.fields()),
        Forwarding::Rest(m) => DItem::Other(item_v(&m)),
    }
}
fn collect<M, E: std::fmt::Debug>(it: impl Iterator<Item = Result<M, E>>, f: impl Fn(M) -> DItem, cap: usize) -> Vec<Result<DItem, String>> {
    it.take(cap).map(|x| x.map(&f).map_err(|e| format!("{e:?}"))).collect()
}

pub fn derived(prop: &str, r: &mut Rng) -> Out {
    let b = client_log(r);
    let cap = b.len() / 3 + 10;
    let mut extra: Vec<String> = vec![];
    for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2, 3, 6]) {
        let n = r.pick(&["unmapped", "array_struct", "alpha", "scalars", "nested", "opts", ""]).to_string();
        extra.push(if r.chance(1, 4) && !n.is_empty() { relative(r, &n) } else { n });
    }
    let fsubs = r.chance(1, 2);
    let how = r.below(3);
    let mode = if r.chance(1, 4) { Mode::Chunks(r.u64()) } else { Mode::Whole };
    let forward = how != 0;
    let (vars, ex, fs): (Vec<&'static str>, Vec<String>, bool) = match how {
        0 => (vec!["scalars", "array_struct", "opts2", "nested", "tiny", "fix"], vec![], false),
        1 => (vec!["scalars", "opts0", "opts2", "nested", "tiny", "fix"], vec![], false),
        _ => (vec!["scalars", "opts0", "opts2", "nested", "tiny", "fix"], extra.clone(), fsubs),
    };
    let e = expect(&b, &vars, &ex, forward, fs);
    let got = guarded(|| -> Result<Vec<Result<DItem, String>>, String> {
        // Without a forwarding variant these requests are errors.
        if Plain::builder(&b[..]).add_subscription("alpha").is_ok() || Plain::builder(&b[..]).extend_subscriptions(["alpha"]).is_ok() || Plain::builder(&b[..]).forward_subscriptions(true).is_ok() {
            return Err("extra subscriptions accepted without a variant for them".into());
        }
        let src = Src::new(&b, mode);
        Ok(match how {
            0 if fsubs => collect(Plain::builder(src).forward_subscriptions(false).map_err(|e| format!("{e:?}"))?.stream().map_err(|e| format!("{e:?}"))?, plain, cap),
            0 => collect(Plain::stream(src).map_err(|e| format!("{e:?}"))?, plain, cap),
            1 => collect(Forwarding::stream(src).map_err(|e| format!("{e:?}"))?, forwarding, cap),
            _ => {
                let mut bd = Forwarding::builder(src);
                // the calls of the builder, in any order, the list in any number of pieces
                let ways = hash(&b);
                if ways & 1 == 0 && (fs || ways >> 60 & 1 == 0) {
                    bd = bd.forward_subscriptions(fs).map_err(|e| format!("{e:?}"))?;
                }
                let mut rest = &ex[..];
                let mut w = ways >> 1;
                while !rest.is_empty() {
                    if w & 1 == 0 {
                        bd = bd.add_subscription(rest[0].as_str()).map_err(|e| format!("{e:?}"))?;
                        rest = &rest[1..];
                    } else {
                        let k = (w as usize >> 1) % (rest.len() + 1);
                        bd = bd.extend_subscriptions(rest[..k].to_vec()).map_err(|e| format!("{e:?}"))?;
                        rest = &rest[k..];
                    }
                    w = w >> 4 | 1 << 60;
                    if w & 6 == 0 {
                        w |= 2;
                    }
                }
                if ways & 1 == 1 {
                    bd = bd.forward_subscriptions(!fs).map_err(|e| format!("{e:?}"))?;
                    bd = bd.forward_subscriptions(fs).map_err(|e| format!("{e:?}"))?;
                }
                collect(bd.stream().map_err(|e| format!("{e:?}"))?, forwarding, cap)
            }
        })
    });
    let who = format!("enum {} extra {ex:?} forward_subscriptions {fs}", ["Plain", "Forwarding", "Forwarding (builder)"][how]);
    let mut v = None;
    match got {
        Err(c) => v = viol(format!("{who}: crash"), &b, "a value or an error", c),
        Ok(Err(c)) => {
            if prop == "C14" {
                v = viol(format!("{who}: configuration"), &b, "the documented outcome", c)
            }
        }
        Ok(Ok(items)) => {
            for i in 0..items.len().max(e.items.len()) {
                let (w, g) = (e.items.get(i), items.get(i));
                let same = match (w, g) {
                    (Some((Some(x), _)), Some(Ok(y))) => x == y,
                    (Some((None, _)), Some(Err(_))) => true,
                    _ => false,
                };
                if same {
                    continue;
                }
                let whose: &[&str] = match (w, g) {
                    (Some((Some(DItem::Mapped(a, _)), _)), Some(Ok(DItem::Mapped(b, _)))) if a == b => &["C13"],
                    (Some((Some(DItem::Mapped(..)), _)), Some(Err(_))) => &["C13"],
                    (Some((None, true)), Some(Ok(DItem::Mapped(..)))) => &["C13", "C14"],
                    (Some((None, true)), _) => &["C13", "C14"],
                    _ => &["C14"],
                };
                if whose.contains(&prop) {
                    v = viol(format!("{who}: item {i} [{}]", whose.join(",")), &b, w.map(|x| &x.0), g);
                }
                break;
            }
        }
    }
    // The conversions of single fields, for every pair of types.
    if v.is_none() && prop == "C13" {
        let (_, val) = rand_val(r, 0, false);
        let f = inst::Field { name: "q".into(), r#type: def::TypeExpr { base_type: def::BaseType::UINT8, array_size: None }, value: field_value(&val) };
        macro_rules! conv {
            ($($t:ty),*) => {$(
                let want = match (&<$t as Member>::kind().0, &val) {
                    (Kind::S(t), Val::S(u, x)) if t == u => Some(MV::S(*t, *x)),
                    (Kind::A(t), Val::A(u, x)) if t == u => Some(MV::A(*t, x.clone())),
                    _ => None,
                };
                match guarded(|| <$t as FromField>::from_field(&f).ok().and_then(|x| x.view())) {
                    Err(c) => v = viol(concat!("conversion to ", stringify!($t)), &[], &want, c),
                    Ok(g) if g != want => v = viol(concat!("conversion to ", stringify!($t)), format!("{val:?}").as_bytes(), &want, &g),
                    _ => {}
                }
            )*};
        }
        conv!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, CChar, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<f32>, Vec<f64>, Vec<bool>, Vec<CChar>);
    }
    // An accessor used on an instance whose fields are not those of the definition it was made for.
    if v.is_none() && prop == "C13" {
        let mut i = rand_inst(r, 1, false);
        let mut fs: Vec<FieldV> = vec![
            FieldV { name: "x".into(), ty: TypeV { base: Base::P(Ty::F32), arr: None }, val: Val::S(Ty::F32, 0x3f800000) },
            FieldV { name: "n".into(), ty: TypeV { base: Base::P(Ty::U16), arr: Some(1) }, val: Val::A(Ty::U16, vec![7]) },
            FieldV { name: "flag".into(), ty: TypeV { base: Base::P(Ty::Bool), arr: None }, val: Val::S(Ty::Bool, 1) },
        ];
        i.fields.retain(|f| !["x", "n", "flag"].contains(&f.name.as_str()));
        let k = r.below(fs.len());
        fs.rotate_left(k);
        for f in fs {
            let at = r.below(i.fields.len() + 1);
            i.fields.insert(at, f);
        }
        // Of several fields with one name, the last one counts.
        for n in ["x", "n", "flag"] {
            if r.chance(1, 4) {
                let last = i.fields.iter().rposition(|f| f.name == n).unwrap();
                let (ty, val) = match n {
                    "x" => (TypeV { base: Base::P(Ty::F32), arr: None }, Val::S(Ty::F32, 0x40000000)),
                    "n" => (TypeV { base: Base::P(Ty::U16), arr: Some(2) }, Val::A(Ty::U16, vec![8, 9])),
                    _ => (TypeV { base: Base::P(Ty::Bool), arr: None }, Val::S(Ty::Bool, 0)),
                };
                let at = r.below(last + 1);
                i.fields.insert(at, FieldV { name: n.into(), ty, val });
            }
        }
        i.def.fields = i.fields.iter().map(|f| (f.name.clone(), f.ty.clone())).collect();
        // Fields can be missing from a message: remove some that the struct does not need.
        i.fields.retain(|f| ["x", "n", "flag"].contains(&f.name.as_str()) || r.chance(1, 2));
        let fmt = inst_format(&i);
        let want = vec![Some(MV::S(Ty::F32, 0x3f800000)), Some(MV::A(Ty::U16, vec![7])), Some(MV::S(Ty::Bool, 1))];
        match guarded(|| Inner::from_format(&fmt.def_format).and_then(|a| a.get_data(&fmt)).map(|x| x.fields()).map_err(|e| format!("{e:?}"))) {
            Err(c) => v = viol("accessor on a message with fewer fields", format!("{i:?}").as_bytes(), &want, c),
            Ok(g) if g.as_ref().ok() != Some(&want) => v = viol("accessor on a message with fewer fields", format!("{i:?}").as_bytes(), &want, &g),
            _ => {}
        }
    }
    out(v, hash(&b), format!("{who} {}", hex(&b[..b.len().min(200)])))
}
