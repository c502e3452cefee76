@@ module macro_utils
@ items
use crate::ulog::*;
use crate::model::def;
/// The field of that name: at the index if it is there, else the last one so called.
pub open spec fn last_named(s: Seq<inst::Field>, name: Seq<char>) -> Option<inst::Field> decreases s.len() {
    if s.len() == 0 { None } else if s.last().name@ == name { Some(s.last()) } else { last_named(s.drop_last(), name) }
}
pub open spec fn found(s: Seq<inst::Field>, index: int, name: Seq<char>) -> Option<inst::Field> {
    if 0 <= index < s.len() && s[index].name@ == name { Some(s[index]) } else { last_named(s, name) }
}
pub proof fn last_named_is(s: Seq<inst::Field>, name: Seq<char>)
    ensures
        last_named(s, name) is None <==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name@ != name,
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].name@ == name && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).name@ != name) ==> last_named(s, name) == Some(s[i]),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        last_named_is(t, name);
        assert forall|i: int| 0 <= i < t.len() implies t[i] == s[i] by {}
        if last_named(s, name) is None { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).name@ != name by { if i < t.len() { assert(t[i] == s[i]); } } }
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].name@ == name && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).name@ != name) implies last_named(s, name) == Some(s[i]) by {
            if i < t.len() { assert(t[i] == s[i]); assert(s[s.len() - 1].name@ != name); }
        }
        if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name@ != name { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).name@ != name by { assert(t[i] == s[i]); } }
    }
}
pub open spec fn okv<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
@@ trait macro_utils::ULogAccessorFactory
@ items
    /// The accessor that a definition gives, if it gives one.
    spec fn binds(d: SDef, a: Option<Self::Accessor>) -> bool;
@@ fn macro_utils::ULogAccessorFactory::from_format
@ spec
    ensures /*@[C13]*/ Self::binds($1.sv(), okv(r)),
@@ trait macro_utils::ULogAccessor
@ items
    /// The value that a message gives, if it gives one.
    spec fn gives(&self, f: inst::Format, o: Option<Self::Output>) -> bool;
@@ fn macro_utils::ULogAccessor::get_data
@ spec
    ensures /*@[C13]*/ self.gives(*$1, okv(r)),
@@ trait macro_utils::FromField
@ items
    /// The value that a field gives, if it gives one.
    spec fn reads(field: inst::Field, v: Option<Self>) -> bool;
@@ fn macro_utils::FromField::from_field
@ spec
    ensures /*@[C13]*/ Self::reads(*$1, okv(r)),
@@ fn macro_utils::get_field
@ spec
    ensures /*@[C13]*/ match found($1.fields@, $2 as int, $3@) { Some(f) => r is Ok && *r->Ok_0 == f, None => r is Err },
@ prologue
    proof { last_named_is($1.fields@, $3@); }
@ closure 0
    |$p0: &&inst::Field| -> (b: bool) ensures b == ($p0.name@ == $3@)
@ closure 1
    || -> (e: ULogError)
@@ impl macro_utils::<FromField for u8>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarU8(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for u8>::from_field
@@ impl macro_utils::<FromField for u16>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarU16(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for u16>::from_field
@@ impl macro_utils::<FromField for u32>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarU32(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for u32>::from_field
@@ impl macro_utils::<FromField for u64>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarU64(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for u64>::from_field
@@ impl macro_utils::<FromField for i8>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarI8(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for i8>::from_field
@@ impl macro_utils::<FromField for i16>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarI16(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for i16>::from_field
@@ impl macro_utils::<FromField for i32>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarI32(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for i32>::from_field
@@ impl macro_utils::<FromField for i64>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarI64(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for i64>::from_field
@@ impl macro_utils::<FromField for f32>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarF32(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for f32>::from_field
@@ impl macro_utils::<FromField for f64>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarF64(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for f64>::from_field
@@ impl macro_utils::<FromField for bool>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarBool(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for bool>::from_field
@@ impl macro_utils::<FromField for CChar>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ScalarChar(x) => v == Some(x), _ => v is None } }
@@ fn macro_utils::<FromField for CChar>::from_field
@@ impl macro_utils::<FromField for Vec<u8>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayU8(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<u8>>::from_field
@@ impl macro_utils::<FromField for Vec<u16>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayU16(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<u16>>::from_field
@@ impl macro_utils::<FromField for Vec<u32>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayU32(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<u32>>::from_field
@@ impl macro_utils::<FromField for Vec<u64>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayU64(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<u64>>::from_field
@@ impl macro_utils::<FromField for Vec<i8>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayI8(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<i8>>::from_field
@@ impl macro_utils::<FromField for Vec<i16>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayI16(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<i16>>::from_field
@@ impl macro_utils::<FromField for Vec<i32>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayI32(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<i32>>::from_field
@@ impl macro_utils::<FromField for Vec<i64>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayI64(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<i64>>::from_field
@@ impl macro_utils::<FromField for Vec<f32>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayF32(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<f32>>::from_field
@@ impl macro_utils::<FromField for Vec<f64>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayF64(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<f64>>::from_field
@@ impl macro_utils::<FromField for Vec<bool>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayBool(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<bool>>::from_field
@@ impl macro_utils::<FromField for Vec<CChar>>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool { match field.value { inst::FieldValue::ArrayChar(x) => v is Some && v->Some_0.sv() == x.sv(), _ => v is None } }
@@ fn macro_utils::<FromField for Vec<CChar>>::from_field
@@ impl macro_utils::<FromField for T>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool {
        match field.value {
            inst::FieldValue::ScalarOther(x) => exists|a: Option<T::Accessor>| #[trigger] T::binds((*x.def_format).sv(), a) && match a { None => v is None, Some(acc) => acc.gives(*x, v) },
            _ => v is None,
        }
    }
@@ fn macro_utils::<FromField for T>::from_field
@@ impl macro_utils::<FromField for Vec>
@ items
    open spec fn reads(field: inst::Field, v: Option<Self>) -> bool {
        match field.value {
            inst::FieldValue::ArrayOther(xs) => if xs@.len() == 0 { v is Some && v->Some_0@.len() == 0 } else {
                exists|a: Option<T::Accessor>| #[trigger] T::binds((*xs@[0].def_format).sv(), a) && match a {
                    None => v is None,
                    Some(acc) => match v {
                        Some(l) => l@.len() == xs@.len() && forall|i: int| 0 <= i < l@.len() ==> acc.gives(#[trigger] xs@[i], Some(l@[i])),
                        None => exists|i: int| 0 <= i < xs@.len() && acc.gives(#[trigger] xs@[i], None),
                    },
                }
            },
            _ => v is None,
        }
    }
@@ fn macro_utils::<FromField for Vec>::from_field
@ loop 0
    invariant
        field.value is ArrayOther && formats@ == field.value->ArrayOther_0@ && formats@.len() > 0 && $over0 == formats,
        T::binds((*formats@[0].def_format).sv(), Some($let1)),
        $let0@.len() == it0.index@, forall|i: int| 0 <= i < $let0@.len() ==> $let1.gives(#[trigger] formats@[i], Some($let0@[i])),
