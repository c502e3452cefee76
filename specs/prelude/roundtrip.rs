//! Lemmas over the specification: what is written is read back (C05, C11).
use vstd::prelude::*;
use crate::prelude::*;
use crate::ulog::*;
verus! {
// ---------------------------------------------------------------- text
pub open spec fn ident(s: Seq<char>) -> bool { s.len() > 0 && is_alpha(s[0]) && forall|i: int| 0 <= i < s.len() ==> is_alnum(#[trigger] s[i]) }
/// A type as a definition can hold it: a name of a primitive type is that type.
pub open spec fn good_base(b: SBase) -> bool { match b { SBase::OTHER(s) => ident(s) && base_of(s) == b, _ => true } }
pub open spec fn good_field(f: SField) -> bool { good_base(f.ty.base) && ident(f.name) }
pub open spec fn good_def(d: SDef) -> bool { ident(d.name) && d.padding == 0 && forall|i: int| 0 <= i < d.fields.len() ==> good_field(#[trigger] d.fields[i]) }

pub open spec fn field_str(f: SField) -> Seq<char> { type_str(f.ty) + seq![' '] + f.name }
pub open spec fn fields_str(l: Seq<SField>, n: nat) -> Seq<char> decreases n {
    if n == 0 || n > l.len() { seq![] } else { fields_str(l, (n - 1) as nat) + (field_str(l[n - 1]) + seq![';']) }
}
pub open spec fn def_str(d: SDef) -> Seq<char> { d.name + seq![':'] + fields_str(d.fields, d.fields.len()) }

// ---------------------------------------------------------------- the matches of the tokenizer
pub proof fn run_app(x: Seq<char>, y: Seq<char>, p: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < x.len() ==> p(#[trigger] x[i]), y.len() == 0 || !p(y[0])
    ensures run(x + y, p) == x.len()
    decreases x.len()
{
    if x.len() > 0 {
        assert((x + y).skip(1) =~= x.skip(1) + y);
        assert forall|i: int| 0 <= i < x.skip(1).len() implies p(#[trigger] x.skip(1)[i]) by { assert(x.skip(1)[i] == x[i + 1]); }
        run_app(x.skip(1), y, p);
        assert((x + y)[0] == x[0]);
    } else { assert(x + y =~= y); }
}
pub open spec fn tok1(c: SCap) -> Seq<STok> { if c.kind is Whitespace { seq![] } else { seq![tok_of(c)] } }
pub proof fn cap_toks_cons(c: SCap, l: Seq<SCap>, n: nat)
    requires n <= l.len()
    ensures cap_toks(seq![c] + l, n + 1) == tok1(c) + cap_toks(l, n)
    decreases n
{
    let s = seq![c] + l;
    assert(s[n as int] == if n == 0 { c } else { l[n - 1] });
    if n > 0 { cap_toks_cons(c, l, (n - 1) as nat); }
    reveal_with_fuel(cap_toks, 2);
    assert(cap_toks(s, n + 1) =~= tok1(c) + cap_toks(l, n));
}
/// The first match, and the rest.
pub proof fn toks_step(x: Seq<char>, y: Seq<char>, k: SKind)
    requires x.len() > 0, cap1(x + y) == (k, x.len())
    ensures toks(x + y) == tok1(SCap { kind: k, text: x }) + toks(y)
{
    let s = x + y;
    assert(s.take(x.len() as int) =~= x);
    assert(s.skip(x.len() as int) =~= y);
    let c = SCap { kind: k, text: x };
    assert(re_caps(s) == seq![c] + re_caps(y));
    cap_toks_cons(c, re_caps(y), re_caps(y).len());
}
pub proof fn toks_id(x: Seq<char>, y: Seq<char>)
    requires ident(x), y.len() == 0 || !is_alnum(y[0])
    ensures toks(x + y) == seq![STok::Id(x)] + toks(y)
{
    run_app(x, y, |c: char| is_alnum(c));
    assert((x + y)[0] == x[0]);
    toks_step(x, y, SKind::Identifier);
}
pub proof fn toks_sp(y: Seq<char>)
    requires y.len() == 0 || !is_ws(y[0])
    ensures toks(seq![' '] + y) == toks(y)
{
    run_app(seq![' '], y, |c: char| is_ws(c));
    assert((seq![' '] + y)[0] == ' ');
    toks_step(seq![' '], y, SKind::Whitespace);
    assert(Seq::<STok>::empty() + toks(y) =~= toks(y));
}
pub proof fn toks_mark(c: char, y: Seq<char>)
    requires c == ':' || c == ';' || c == '[' || c == ']'
    ensures toks(seq![c] + y) == seq![if c == ':' { STok::Colon } else if c == ';' { STok::Semi } else if c == '[' { STok::LB } else { STok::RB }] + toks(y)
{
    assert((seq![c] + y)[0] == c);
    toks_step(seq![c], y, if c == ':' { SKind::Colon } else if c == ';' { SKind::Semicolon } else if c == '[' { SKind::LBrace } else { SKind::RBrace });
}
pub proof fn digit_is(d: nat) requires d < 10 ensures is_digit(digit(d)), digit(d) as nat == 48 + d {
    let x = (48 + d) as u8;
    assert(48 <= x <= 57);
    assert((x as char) as nat == x);
}
pub proof fn dec_is(n: nat)
    ensures dec(n).len() > 0, num(dec(n)) == n, forall|i: int| 0 <= i < dec(n).len() ==> is_digit(#[trigger] dec(n)[i])
    decreases n
{
    digit_is(n % 10);
    if n < 10 {
        reveal_with_fuel(num, 2);
        assert(dec(n).drop_last() =~= seq![]);
    } else {
        dec_is(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
    }
}
pub proof fn toks_num(n: usize, y: Seq<char>)
    requires y.len() == 0 || !is_digit(y[0])
    ensures toks(dec(n as nat) + y) == seq![STok::Num(n)] + toks(y)
{
    let x = dec(n as nat);
    dec_is(n as nat);
    run_app(x, y, |c: char| is_digit(c));
    assert((x + y)[0] == x[0]);
    assert(is_digit(x[0]));
    toks_step(x, y, SKind::Number);
}
pub proof fn toks_none() ensures toks(Seq::<char>::empty()) == Seq::<STok>::empty() {}

// ---------------------------------------------------------------- types, fields, definitions
pub proof fn base_names(b: SBase)
    requires good_base(b)
    ensures ident(base_str(b)), base_of(base_str(b)) == b
{
    reveal_strlit("int8_t"); reveal_strlit("int16_t"); reveal_strlit("int32_t"); reveal_strlit("int64_t");
    reveal_strlit("uint8_t"); reveal_strlit("uint16_t"); reveal_strlit("uint32_t"); reveal_strlit("uint64_t");
    reveal_strlit("float"); reveal_strlit("double"); reveal_strlit("bool"); reveal_strlit("char");
    assert("int8_t"@.len() == 6 && "int8_t"@[0] == 'i' && "int8_t"@[3] == '8' && "int8_t"@[4] == '_');
    assert("int16_t"@.len() == 7 && "int16_t"@[0] == 'i' && "int16_t"@[3] == '1' && "int16_t"@[4] == '6');
    assert("int32_t"@.len() == 7 && "int32_t"@[0] == 'i' && "int32_t"@[3] == '3' && "int32_t"@[4] == '2');
    assert("int64_t"@.len() == 7 && "int64_t"@[0] == 'i' && "int64_t"@[3] == '6' && "int64_t"@[4] == '4');
    assert("uint8_t"@.len() == 7 && "uint8_t"@[0] == 'u' && "uint8_t"@[3] == 't' && "uint8_t"@[4] == '8');
    assert("uint16_t"@.len() == 8 && "uint16_t"@[0] == 'u' && "uint16_t"@[3] == 't' && "uint16_t"@[4] == '1');
    assert("uint32_t"@.len() == 8 && "uint32_t"@[0] == 'u' && "uint32_t"@[3] == 't' && "uint32_t"@[4] == '3');
    assert("uint64_t"@.len() == 8 && "uint64_t"@[0] == 'u' && "uint64_t"@[3] == 't' && "uint64_t"@[4] == '6');
    assert("float"@.len() == 5 && "float"@[0] == 'f' && "float"@[3] == 'a' && "float"@[4] == 't');
    assert("double"@.len() == 6 && "double"@[0] == 'd' && "double"@[3] == 'b' && "double"@[4] == 'l');
    assert("bool"@.len() == 4 && "bool"@[0] == 'b' && "bool"@[3] == 'l');
    assert("char"@.len() == 4 && "char"@[0] == 'c' && "char"@[3] == 'r');
    assert forall|i: int| 0 <= i < base_str(b).len() implies is_alnum(#[trigger] base_str(b)[i]) by {}
}
pub open spec fn field_toks(f: SField) -> Seq<STok> {
    match f.ty.arr {
        None => seq![STok::Id(base_str(f.ty.base)), STok::Id(f.name)],
        Some(n) => seq![STok::Id(base_str(f.ty.base)), STok::LB, STok::Num(n), STok::RB, STok::Id(f.name)],
    }
}
pub proof fn field_str_toks(f: SField, y: Seq<char>)
    requires good_field(f), y.len() == 0 || !is_alnum(y[0])
    ensures toks(field_str(f) + y) == field_toks(f) + toks(y)
{
    let b = base_str(f.ty.base);
    base_names(f.ty.base);
    toks_id(f.name, y);
    let r0 = f.name + y;
    assert(r0[0] == f.name[0]);
    toks_sp(r0);
    let r1 = seq![' '] + r0;
    match f.ty.arr {
        None => {
            assert(r1[0] == ' ');
            toks_id(b, r1);
            assert(field_str(f) + y =~= b + r1);
            assert(field_toks(f) + toks(y) =~= seq![STok::Id(b)] + (seq![STok::Id(f.name)] + toks(y)));
        }
        Some(n) => {
            reveal_strlit("["); reveal_strlit("]");
            toks_mark(']', r1);
            let r2 = seq![']'] + r1;
            assert(r2[0] == ']');
            toks_num(n, r2);
            let r3 = dec(n as nat) + r2;
            toks_mark('[', r3);
            let r4 = seq!['['] + r3;
            assert(r4[0] == '[');
            toks_id(b, r4);
            assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']);
            assert(field_str(f) + y =~= b + r4);
            assert(field_toks(f) + toks(y) =~= seq![STok::Id(b)] + (seq![STok::LB] + (seq![STok::Num(n)] + (seq![STok::RB] + (seq![STok::Id(f.name)] + toks(y))))));
        }
    }
}
/// C11, C17: a field that is written is read back, whatever follows it.
pub proof fn field_back(f: SField, t: Seq<STok>)
    requires good_field(f)
    ensures p_field(field_toks(f) + t) == Some((f, t))
{
    base_names(f.ty.base);
    let s = field_toks(f) + t;
    let s1 = s.skip(1);
    match f.ty.arr {
        None => { assert(s1[0] == STok::Id(f.name)); assert(s1.skip(1) =~= t); }
        Some(n) => { assert(s1[0] == STok::LB && s1[1] == STok::Num(n) && s1[2] == STok::RB && s1[3] == STok::Id(f.name)); assert(s1.skip(4) =~= t); }
    }
}
pub open spec fn fields_toks(l: Seq<SField>) -> Seq<STok> decreases l.len() {
    if l.len() == 0 { seq![] } else { field_toks(l[0]) + (seq![STok::Semi] + fields_toks(l.skip(1))) }
}
pub proof fn fields_toks_push(l: Seq<SField>, f: SField)
    ensures fields_toks(l.push(f)) == fields_toks(l) + (field_toks(f) + seq![STok::Semi])
    decreases l.len()
{
    let m = l.push(f);
    if l.len() == 0 {
        assert(m.skip(1) =~= l);
        assert(fields_toks(m) =~= fields_toks(l) + (field_toks(f) + seq![STok::Semi]));
    } else {
        fields_toks_push(l.skip(1), f);
        assert(m.skip(1) =~= l.skip(1).push(f));
        assert(fields_toks(m) =~= fields_toks(l) + (field_toks(f) + seq![STok::Semi]));
    }
}
pub proof fn fields_str_toks(l: Seq<SField>, n: nat, y: Seq<char>)
    requires n <= l.len(), forall|i: int| 0 <= i < l.len() ==> good_field(#[trigger] l[i])
    ensures toks(fields_str(l, n) + y) == fields_toks(l.take(n as int)) + toks(y)
    decreases n
{
    if n == 0 {
        assert(fields_str(l, n) + y =~= y);
        assert(l.take(0) =~= seq![]);
        assert(fields_toks(l.take(0)) + toks(y) =~= toks(y));
    } else {
        let f = l[n - 1];
        let z = seq![';'] + y;
        assert(good_field(l[n - 1]));
        fields_str_toks(l, (n - 1) as nat, field_str(f) + z);
        assert(z[0] == ';');
        field_str_toks(f, z);
        toks_mark(';', y);
        let a = fields_str(l, (n - 1) as nat);
        let x = field_str(f);
        assert((x + seq![';']) + y =~= x + z);
        cseq_assoc(a, x + seq![';'], y);
        assert(fields_str(l, n) + y == a + (x + z));
        assert(l.take(n as int) =~= l.take(n - 1).push(f));
        fields_toks_push(l.take(n - 1), f);
        let (p, q, r) = (fields_toks(l.take(n - 1)), field_toks(f), toks(y));
        let m = seq![STok::Semi];
        assert(p + (q + (m + r)) =~= (p + (q + m)) + r);
    }
}
pub proof fn fields_back(l: Seq<SField>)
    requires forall|i: int| 0 <= i < l.len() ==> good_field(#[trigger] l[i])
    ensures p_fields(fields_toks(l)) == Some(l)
    decreases l.len()
{
    if l.len() > 0 {
        assert(good_field(l[0]));
        assert forall|i: int| 0 <= i < l.skip(1).len() implies good_field(#[trigger] l.skip(1)[i]) by { assert(l.skip(1)[i] == l[i + 1]); }
        fields_back(l.skip(1));
        let t = seq![STok::Semi] + fields_toks(l.skip(1));
        field_back(l[0], t);
        assert(t[0] is Semi);
        assert(t.skip(1) =~= fields_toks(l.skip(1)));
        assert(seq![l[0]] + l.skip(1) =~= l);
    }
}
/// C11: the text of a definition is read as that definition.
pub proof fn def_str_back(d: SDef)
    requires good_def(d)
    ensures p_toks(toks(def_str(d))) == Some(d)
{
    let fl = d.fields;
    let e = Seq::<char>::empty();
    let ft = fields_str(fl, fl.len());
    fields_str_toks(fl, fl.len(), e);
    assert(ft + e =~= ft);
    assert(fl.take(fl.len() as int) =~= fl);
    toks_none();
    assert(fields_toks(fl) + Seq::<STok>::empty() =~= fields_toks(fl));
    toks_mark(':', ft);
    let r = seq![':'] + ft;
    assert(r[0] == ':');
    toks_id(d.name, r);
    assert(def_str(d) =~= d.name + r);
    let t = toks(def_str(d));
    assert(t =~= seq![STok::Id(d.name), STok::Colon] + fields_toks(fl));
    assert(t[0] == STok::Id(d.name) && t[1] == STok::Colon);
    assert(t.skip(2) =~= fields_toks(fl));
    fields_back(fl);
}

// ---------------------------------------------------------------- bytes of text
pub proof fn utf8_app(a: Seq<char>, b: Seq<char>) ensures utf8(a + b) == utf8(a) + utf8(b) { vstd::utf8::encode_utf8_concat(a, b); }
pub proof fn utf8_back(s: Seq<char>) ensures utf8_ok(utf8(s)), chars_of(utf8(s)) == s { vstd::utf8::encode_utf8_valid_utf8(s); vstd::utf8::encode_utf8_decode_utf8(s); }
pub proof fn utf8_fwd(b: Seq<u8>) requires utf8_ok(b) ensures utf8(chars_of(b)) == b { vstd::utf8::decode_utf8_encode_utf8(b); }
pub proof fn utf8_ascii(c: char)
    requires (c as nat) < 128
    ensures utf8(seq![c]) == seq![c as u8]
{
    let s = seq![c];
    vstd::utf8::is_ascii_chars_encode_utf8(s);
    assert(utf8(s) =~= seq![c as u8]);
}
pub proof fn enc_type_str(t: SType) ensures enc_type(t) == utf8(type_str(t)) {
    if let Some(n) = t.arr {
        reveal_strlit("["); reveal_strlit("]");
        assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']);
        utf8_ascii('['); utf8_ascii(']');
        let b = base_str(t.base);
        utf8_app(b, seq!['[']); utf8_app(b + seq!['['], dec(n as nat)); utf8_app(b + seq!['['] + dec(n as nat), seq![']']);
    }
}
pub proof fn enc_field_str(f: SField) ensures enc_dfield(f) == utf8(field_str(f)) {
    enc_type_str(f.ty);
    utf8_ascii(' ');
    utf8_app(type_str(f.ty), seq![' ']); utf8_app(type_str(f.ty) + seq![' '], f.name);
}
pub proof fn enc_fields_str(l: Seq<SField>, n: nat) ensures enc_dfields(l, n) == utf8(fields_str(l, n)) decreases n {
    if n == 0 || n > l.len() { vstd::utf8::is_ascii_chars_encode_utf8(Seq::<char>::empty()); assert(utf8(Seq::<char>::empty()) =~= seq![]); } else {
        enc_fields_str(l, (n - 1) as nat);
        enc_field_str(l[n - 1]);
        utf8_ascii(';');
        let a = fields_str(l, (n - 1) as nat);
        let x = field_str(l[n - 1]);
        utf8_app(x, seq![';']); utf8_app(a, x + seq![';']);
        seq_assoc(utf8(a), utf8(x), seq![0x3bu8]);
    }
}
pub proof fn enc_def_str(d: SDef) ensures enc_def(d) == utf8(def_str(d)) {
    enc_fields_str(d.fields, d.fields.len());
    utf8_ascii(':');
    utf8_app(d.name, seq![':']); utf8_app(d.name + seq![':'], fields_str(d.fields, d.fields.len()));
}
/// C11: the bytes of a definition are read as that definition.
pub proof fn def_back(d: SDef)
    requires good_def(d)
    ensures p_format(enc_def(d)) == Some(d)
{ enc_def_str(d); utf8_back(def_str(d)); def_str_back(d); }

// ---------------------------------------------------------------- what is read can be written
pub proof fn run_max(s: Seq<char>, p: spec_fn(char) -> bool) ensures forall|i: int| 0 <= i < run(s, p) ==> p(#[trigger] s[i]), run(s, p) <= s.len() { run_len(s, p); }
pub proof fn caps_ids(s: Seq<char>, i: int)
    requires 0 <= i < re_caps(s).len()
    ensures re_caps(s)[i].kind is Identifier ==> ident(re_caps(s)[i].text)
    decreases s.len()
{
    let (k, n) = cap1(s);
    if i > 0 { caps_ids(s.skip(n as int), i - 1); assert(re_caps(s)[i] == re_caps(s.skip(n as int))[i - 1]); }
    else {
        run_len(s, |c: char| is_alnum(c));
        let t = s.take(n as int);
        assert(re_caps(s)[0].text == t);
        if k is Identifier {
            assert(t[0] == s[0]);
            assert forall|j: int| 0 <= j < t.len() implies is_alnum(#[trigger] t[j]) by { assert(t[j] == s[j]); }
        }
    }
}
pub proof fn toks_ids(l: Seq<SCap>, n: nat)
    requires n <= l.len(), forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).kind is Identifier ==> ident(l[i].text)
    ensures forall|i: int| 0 <= i < cap_toks(l, n).len() && (#[trigger] cap_toks(l, n)[i]) is Id ==> ident(cap_toks(l, n)[i]->Id_0)
    decreases n
{
    if n > 0 { toks_ids(l, (n - 1) as nat); assert(l[n - 1] == l[n - 1]); }
}
pub open spec fn good_toks(t: Seq<STok>) -> bool { forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Id ==> ident(t[i]->Id_0) }
pub proof fn toks_good(s: Seq<char>) ensures good_toks(toks(s)) {
    assert forall|i: int| 0 <= i < re_caps(s).len() && (#[trigger] re_caps(s)[i]).kind is Identifier implies ident(re_caps(s)[i].text) by { caps_ids(s, i); }
    toks_ids(re_caps(s), re_caps(s).len());
}
pub proof fn good_skip(t: Seq<STok>, n: int) requires good_toks(t), 0 <= n <= t.len() ensures good_toks(t.skip(n)) {
    assert forall|i: int| 0 <= i < t.skip(n).len() && (#[trigger] t.skip(n)[i]) is Id implies ident(t.skip(n)[i]->Id_0) by { assert(t.skip(n)[i] == t[i + n]); }
}
pub proof fn field_good(t: Seq<STok>)
    requires good_toks(t), p_field(t) is Some
    ensures good_field(p_field(t)->Some_0.0), good_toks(p_field(t)->Some_0.1)
{
    let t1 = t.skip(1);
    good_skip(t, 1);
    if t1[0] is LB { assert(ident(t1[3]->Id_0)); good_skip(t1, 4); } else { assert(ident(t1[0]->Id_0)); good_skip(t1, 1); }
    assert(ident(t[0]->Id_0));
}
pub proof fn fields_good(t: Seq<STok>)
    requires good_toks(t), p_fields(t) is Some
    ensures forall|i: int| 0 <= i < p_fields(t)->Some_0.len() ==> good_field(#[trigger] p_fields(t)->Some_0[i])
    decreases t.len()
{
    if t.len() > 0 {
        field_good(t);
        let (f, rest) = p_field(t)->Some_0;
        good_skip(rest, 1);
        fields_good(rest.skip(1));
        let l = p_fields(rest.skip(1))->Some_0;
        assert forall|i: int| 0 <= i < (seq![f] + l).len() implies good_field(#[trigger] (seq![f] + l)[i]) by { if i > 0 { assert((seq![f] + l)[i] == l[i - 1]); } }
    }
}
pub proof fn def_good(b: Seq<u8>)
    requires p_format(b) is Some
    ensures good_def(p_format(b)->Some_0)
{
    let t = toks(chars_of(b));
    toks_good(chars_of(b));
    assert(ident(t[0]->Id_0));
    good_skip(t, 2);
    fields_good(t.skip(2));
}
/// C11: encoding a definition that was parsed, and parsing it again, gives the same definition.
pub proof fn def_again(b: Seq<u8>)
    requires p_format(b) is Some
    ensures p_format(enc_def(p_format(b)->Some_0)) == p_format(b)
{ def_good(b); def_back(p_format(b)->Some_0); }

// ---------------------------------------------------------------- values
/// Booleans are stored as 0 or 1.
pub open spec fn plain_prim(base: SBase, b: Seq<u8>) -> bool { base is BOOL && b.len() > 0 ==> b[0] <= 1 }
pub open spec fn plain_prims(base: SBase, n: nat, b: Seq<u8>) -> bool { base is BOOL ==> forall|i: int| 0 <= i < n && i < b.len() ==> #[trigger] b[i] <= 1 }
pub open spec fn plain_val(fs: Map<Seq<char>, SDef>, ty: SType, b: Seq<u8>, k: int) -> bool
    decreases (if k < 0 { 0int } else { k + 1 }), 2int, 0int
{
    match ty.arr {
        None => match ty.base { SBase::OTHER(n) => k > 0 ==> plain_fmt(fs, fs[n], b, k - 1), base => plain_prim(base, b) },
        Some(n) => match ty.base { SBase::OTHER(name) => plain_fmts(fs, fs[name], n as nat, b, k), base => plain_prims(base, n as nat, b) },
    }
}
pub open spec fn plain_fmts(fs: Map<Seq<char>, SDef>, d: SDef, n: nat, b: Seq<u8>, k: int) -> bool
    decreases (if k < 0 { 0int } else { k + 1 }), 1int, n
{
    n == 0 || (plain_fmts(fs, d, (n - 1) as nat, b, k) && match dec_fmts(fs, d, (n - 1) as nat, b, k, true) { None => true, Some((_, rest)) => k > 0 ==> plain_fmt(fs, d, rest, k - 1) })
}
pub open spec fn plain_fmt(fs: Map<Seq<char>, SDef>, d: SDef, b: Seq<u8>, k: int) -> bool
    decreases (if k < 0 { 0int } else { k + 1 }), 4int, 0int
{ k >= 0 ==> plain_fields(fs, d.fields, d.fields.len(), b, k) }
pub open spec fn plain_fields(fs: Map<Seq<char>, SDef>, fl: Seq<SField>, n: nat, b: Seq<u8>, k: int) -> bool
    decreases (if k < 0 { 0int } else { k + 1 }), 3int, n
{
    n == 0 || n > fl.len() || (plain_fields(fs, fl, (n - 1) as nat, b, k) && match dec_fields(fs, fl, (n - 1) as nat, b, k, true) {
        None => true,
        Some((_, _, rest)) => is_padding(fl[n - 1].name) || plain_val(fs, fl[n - 1].ty, rest, k),
    })
}
pub proof fn flat_prefix(l: Seq<Seq<u8>>, x: Seq<u8>, n: nat) requires n <= l.len() ensures flat(l.push(x), n) == flat(l, n) decreases n
{ if n > 0 { flat_prefix(l, x, (n - 1) as nat); } }
pub proof fn insts_prefix(l: Seq<SInst>, x: SInst, n: nat) requires n <= l.len() ensures enc_insts(l.push(x), n) == enc_insts(l, n) decreases n
{ if n > 0 { insts_prefix(l, x, (n - 1) as nat); } }
pub proof fn fmts_prefix(l: Seq<SFmt>, x: SFmt, n: nat) requires n <= l.len() ensures enc_fmts(l.push(x), n) == enc_fmts(l, n) decreases n
{ if n > 0 { fmts_prefix(l, x, (n - 1) as nat); } }
pub proof fn prim_back(base: SBase, b: Seq<u8>)
    requires is_prim(base), plain_prim(base, b), dec_prim(base, b) is Some
    ensures dec_prim(base, b)->Some_0.0 == b.take(width(base) as int), b == dec_prim(base, b)->Some_0.0 + b.skip(width(base) as int)
{
    let x = b.take(width(base) as int);
    assert(x + b.skip(width(base) as int) =~= b);
    if base is BOOL { assert(x[0] == b[0]); assert(norm(base, x) =~= x); }
}
pub proof fn prims_back(base: SBase, n: nat, b: Seq<u8>)
    requires is_prim(base), plain_prims(base, n, b), dec_prims(base, n, b) is Some
    ensures ({ let (l, rest) = dec_prims(base, n, b)->Some_0; b == flat(l, l.len()) + rest && l.len() == n && b.len() == n * width(base) + rest.len() })
    decreases n
{
    if n == 0 { assert(flat(seq![], 0) + b =~= b); } else {
        prims_back(base, (n - 1) as nat, b);
        let (acc, rest) = dec_prims(base, (n - 1) as nat, b)->Some_0;
        let w = width(base);
        assert(n * w == (n - 1) * w + w) by (nonlinear_arith) requires n > 0;
        if base is BOOL { assert(b[n - 1] == rest[0]); }
        prim_back(base, rest);
        let (v, rest2) = dec_prim(base, rest)->Some_0;
        flat_prefix(acc, v, acc.len());
        assert(acc.push(v)[acc.len() as int] == v);
        seq_assoc(flat(acc, acc.len()), v, rest2);
    }
}
pub proof fn pad_back(f: SField, b: Seq<u8>)
    ensures match dec_pad(f, b, true) { (Some(i), rest) => b == enc_val(i.val) + rest && i.name == f.name, (None, rest) => b == rest }
{
    if let Some(n) = f.ty.arr { if n <= b.len() {
        let l = Seq::new(n as nat, |i: int| seq![b[i]]);
        let x = b.take(n as int);
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] l[i] == seq![x[i]] by {}
        flat_bytes(l, x, n as nat);
        assert(x.take(n as int) =~= x);
        assert(x + b.skip(n as int) =~= b);
    } }
}
/// C05: writing what was read gives the bytes that were read.
pub proof fn val_back(fs: Map<Seq<char>, SDef>, ty: SType, b: Seq<u8>, k: int)
    requires plain_val(fs, ty, b, k), dec_val(fs, ty, b, k, true) is Some
    ensures ({ let (v, rest) = dec_val(fs, ty, b, k, true)->Some_0; b == enc_val(v) + rest })
    decreases (if k < 0 { 0int } else { k + 1 }), 2int, 0int
{
    match ty.arr {
        None => match ty.base { SBase::OTHER(n) => { fmt_back(fs, fs[n], b, k - 1); }, base => { prim_back(base, b); } },
        Some(n) => match ty.base { SBase::OTHER(name) => { fmts_back(fs, fs[name], n as nat, b, k); }, base => { prims_back(base, n as nat, b); } },
    }
}
pub proof fn fmts_back(fs: Map<Seq<char>, SDef>, d: SDef, n: nat, b: Seq<u8>, k: int)
    requires plain_fmts(fs, d, n, b, k), dec_fmts(fs, d, n, b, k, true) is Some
    ensures ({ let (l, rest) = dec_fmts(fs, d, n, b, k, true)->Some_0; b == enc_fmts(l, l.len()) + rest })
    decreases (if k < 0 { 0int } else { k + 1 }), 1int, n
{
    if n == 0 { assert(enc_fmts(seq![], 0) + b =~= b); } else {
        fmts_back(fs, d, (n - 1) as nat, b, k);
        let (acc, rest) = dec_fmts(fs, d, (n - 1) as nat, b, k, true)->Some_0;
        fmt_back(fs, d, rest, k - 1);
        let (f, rest2) = dec_fmt(fs, d, rest, k - 1, true)->Some_0;
        fmts_prefix(acc, f, acc.len());
        assert(acc.push(f)[acc.len() as int] == f);
        seq_assoc(enc_fmts(acc, acc.len()), enc_fmt(f), rest2);
    }
}
pub proof fn fmt_back(fs: Map<Seq<char>, SDef>, d: SDef, b: Seq<u8>, k: int)
    requires plain_fmt(fs, d, b, k), dec_fmt(fs, d, b, k, true) is Some
    ensures ({ let (f, rest) = dec_fmt(fs, d, b, k, true)->Some_0; b == enc_fmt(f) + rest })
    decreases (if k < 0 { 0int } else { k + 1 }), 4int, 0int
{ fields_back_bytes(fs, d.fields, d.fields.len(), b, k); }
pub proof fn fields_back_bytes(fs: Map<Seq<char>, SDef>, fl: Seq<SField>, n: nat, b: Seq<u8>, k: int)
    requires n <= fl.len(), k >= 0, plain_fields(fs, fl, n, b, k), dec_fields(fs, fl, n, b, k, true) is Some
    ensures ({ let (l, ts, rest) = dec_fields(fs, fl, n, b, k, true)->Some_0; b == enc_insts(l, l.len()) + rest })
    decreases (if k < 0 { 0int } else { k + 1 }), 3int, n
{
    if n == 0 { assert(enc_insts(seq![], 0) + b =~= b); } else {
        fields_back_bytes(fs, fl, (n - 1) as nat, b, k);
        let (acc, ts, rest) = dec_fields(fs, fl, (n - 1) as nat, b, k, true)->Some_0;
        let f = fl[n - 1];
        let (l, ts2, rest2) = dec_fields(fs, fl, n, b, k, true)->Some_0;
        if is_padding(f.name) {
            pad_back(f, rest);
            if let Some(i) = dec_pad(f, rest, true).0 {
                insts_prefix(acc, i, acc.len());
                assert(acc.push(i)[acc.len() as int] == i);
                seq_assoc(enc_insts(acc, acc.len()), enc_val(i.val), rest2);
            }
        } else {
            val_back(fs, f.ty, rest, k);
            let v = dec_val(fs, f.ty, rest, k, true)->Some_0.0;
            let i = SInst { name: f.name, ty: f.ty, val: v };
            insts_prefix(acc, i, acc.len());
            assert(acc.push(i)[acc.len() as int] == i);
            seq_assoc(enc_insts(acc, acc.len()), enc_val(v), rest2);
        }
    }
}

// ---------------------------------------------------------------- messages
/// The tables of the parser, its phase, its limit and how much it has read.
pub struct SSt { pub fs: Map<Seq<char>, SDef>, pub subs: Map<u16, SSub>, pub multi: Set<Seq<char>>, pub limit: Option<usize>, pub data: bool, pub read: int }
pub open spec fn st_step(s: SSt, t: u8, b: Seq<u8>) -> SSt {
    let sub = if t == 0x41 { dec_sub(s.fs, b) } else { None };
    SSt {
        fs: if !s.data && t == 0x46 && p_format(b) is Some { s.fs.insert(p_format(b)->Some_0.name, p_format(b)->Some_0) } else { s.fs },
        subs: match sub { Some(x) => s.subs.insert(x.msg_id, x), None => if s.data && t == 0x52 && b.len() >= 2 { s.subs.remove(le_u16(b)) } else { s.subs } },
        multi: match sub { Some(x) if x.multi_id > 0 => s.multi.insert(x.name), _ => s.multi },
        limit: if !s.data && t == 0x42 && dec_flags(b) is Some { new_limit(dec_flags(b)->Some_0, s.limit) } else { s.limit },
        data: s.data || sub is Some,
        read: s.read + 3 + b.len(),
    }
}
/// The message that these bytes are, with all options on and no allow-list.
pub open spec fn st_want(s: SSt, t: u8, b: Seq<u8>, k: int) -> Option<SMsg> {
    if s.data { want_data(s.fs, s.subs, s.multi, None, t, b, k, true) } else { want_def(s.fs, t, b, k, true) }
}
/// The key string spells the field canonically.
pub open spec fn spells(b: Seq<u8>, f: SField) -> bool {
    let x = utf8(field_str(f));
    good_field(f) && x.len() <= 255 && b.len() >= 1 + x.len() && b[0] == x.len() && b.skip(1).take(x.len() as int) == x
}
pub open spec fn after_key(b: Seq<u8>) -> Seq<u8> { b.skip(1 + b[0]) }
pub open spec fn plain_info(s: SSt, b: Seq<u8>, k: int) -> bool {
    exists|f: SField| #[trigger] spells(b, f) && plain_val(s.fs, f.ty, after_key(b), k)
        && (dec_val(s.fs, f.ty, after_key(b), k, true) is Some ==> dec_val(s.fs, f.ty, after_key(b), k, true)->Some_0.1.len() == 0)
}
pub open spec fn plain_param(b: Seq<u8>) -> bool { exists|f: SField| #[trigger] spells(b, f) && after_key(b).len() == 4 }
/// Canonically spelled texts, booleans stored as 0 or 1, and no surplus bytes.
pub open spec fn plain(s: SSt, t: u8, b: Seq<u8>, k: int) -> bool {
    if t == 0x49 { plain_info(s, b, k) }
    else if t == 0x4d { b.len() > 0 && b[0] <= 1 && plain_info(s, b.skip(1), k) }
    else if t == 0x50 { plain_param(b) }
    else if t == 0x51 { b.len() > 0 && plain_param(b.skip(1)) }
    else if !s.data && t == 0x42 { b.len() == 40 }
    else if !s.data && t == 0x46 { exists|d: SDef| good_def(d) && b == utf8(#[trigger] def_str(d)) }
    else if s.data && t == 0x4f { b.len() == 2 }
    else if s.data && t == 0x44 {
        b.len() >= 2 && s.subs.contains_key(le_u16(b)) && ({
            let d = s.fs[s.subs[le_u16(b)].name];
            plain_fmt(s.fs, d, b.skip(2), k) && (dec_fmt(s.fs, d, b.skip(2), k, true) is Some ==> dec_fmt(s.fs, d, b.skip(2), k, true)->Some_0.1.len() == 0)
        })
    }
    else { true }
}
pub proof fn key_back(b: Seq<u8>, f: SField)
    requires spells(b, f)
    ensures dec_key(b) == Some((f, after_key(b))), b == enc_lkey(f.ty, f.name) + after_key(b), key_fits(f.ty, f.name)
{
    let x = utf8(field_str(f));
    enc_field_str(f);
    utf8_back(field_str(f));
    let e = Seq::<char>::empty();
    field_str_toks(f, e);
    assert(field_str(f) + e =~= field_str(f));
    field_back(f, toks(e));
    assert(seq![b[0]] + x + after_key(b) =~= b);
    assert(enc_lkey(f.ty, f.name) =~= seq![b[0]] + x);
}
pub proof fn info_back(s: SSt, b: Seq<u8>, k: int)
    requires plain_info(s, b, k), dec_key(b) is Some, dec_val(s.fs, dec_key(b)->Some_0.0.ty, dec_key(b)->Some_0.1, k, true) is Some
    ensures ({ let (f, rest) = dec_key(b)->Some_0; key_fits(f.ty, f.name) && b == enc_lkey(f.ty, f.name) + enc_val(dec_val(s.fs, f.ty, rest, k, true)->Some_0.0) })
{
    let f = choose|f: SField| #[trigger] spells(b, f) && plain_val(s.fs, f.ty, after_key(b), k)
        && (dec_val(s.fs, f.ty, after_key(b), k, true) is Some ==> dec_val(s.fs, f.ty, after_key(b), k, true)->Some_0.1.len() == 0);
    key_back(b, f);
    val_back(s.fs, f.ty, after_key(b), k);
    let (v, rest) = dec_val(s.fs, f.ty, after_key(b), k, true)->Some_0;
    assert(enc_val(v) + rest =~= enc_val(v));
}
pub proof fn param_back(b: Seq<u8>)
    requires plain_param(b), dec_key(b) is Some, dec_param_val(dec_key(b)->Some_0.0.ty, dec_key(b)->Some_0.1) is Some
    ensures ({ let (f, rest) = dec_key(b)->Some_0; key_fits(f.ty, f.name) && b == enc_lkey(f.ty, f.name) + enc_val(dec_param_val(f.ty, rest)->Some_0) })
{
    let f = choose|f: SField| #[trigger] spells(b, f) && after_key(b).len() == 4;
    key_back(b, f);
    let r = after_key(b);
    assert(r.take(4) =~= r);
}
pub proof fn le_take(n: nat, b: Seq<u8>) requires b.len() >= n ensures le(n, un(b.take(n as int))) == b.take(n as int) { le_un(n, b.take(n as int)); }
pub proof fn num_back(b: Seq<u8>)
    ensures b.len() >= 2 ==> le(2, le_u16(b) as nat) == b.take(2), b.len() >= 8 ==> le(8, le_u64(b) as nat) == b.take(8)
{
    if b.len() >= 2 { un_bounds(b.take(2)); le_un(2, b.take(2)); }
    if b.len() >= 8 { un_bounds(b.take(8)); le_un(8, b.take(8)); }
}
pub proof fn log_back(b: Seq<u8>)
    ensures dec_log(b) is Some ==> content(dec_log(b)->Some_0) == b, dec_tagged(b) is Some ==> content(dec_tagged(b)->Some_0) == b
{
    if dec_log(b) is Some {
        num_back(b.skip(1)); utf8_fwd(b.skip(9));
        assert(seq![b[0]] + Seq::<u8>::empty() + b.skip(1).take(8) + b.skip(9) =~= b);
    }
    if dec_tagged(b) is Some {
        num_back(b.skip(1)); num_back(b.skip(3)); utf8_fwd(b.skip(11));
        assert(seq![b[0]] + b.skip(1).take(2) + b.skip(3).take(8) + b.skip(11) =~= b);
    }
}
pub proof fn flags_back(b: Seq<u8>)
    requires b.len() == 40
    ensures dec_flags(b) is Some ==> content(dec_flags(b)->Some_0) == b
{
    num_back(b.skip(16)); num_back(b.skip(24)); num_back(b.skip(32));
    let o = seq![le_u64(b.skip(16)), le_u64(b.skip(24)), le_u64(b.skip(32))];
    reveal_with_fuel(enc_u64s, 4);
    let e = Seq::<u8>::empty();
    assert(enc_u64s(o, 3) == e + b.skip(16).take(8) + b.skip(24).take(8) + b.skip(32).take(8));
    assert(b.take(8) + b.skip(8).take(8) + (e + b.skip(16).take(8) + b.skip(24).take(8) + b.skip(32).take(8)) =~= b);
}
pub proof fn sub_back(fs: Map<Seq<char>, SDef>, b: Seq<u8>)
    ensures dec_sub(fs, b) is Some ==> enc_sub(dec_sub(fs, b)->Some_0) == b
{
    if dec_sub(fs, b) is Some {
        num_back(b.skip(1)); utf8_fwd(b.skip(3));
        assert(seq![b[0]] + b.skip(1).take(2) + b.skip(3) =~= b);
    }
}
/// The data bytes of a subscription are written as they were read.
pub proof fn data_back(fs: Map<Seq<char>, SDef>, multi: Set<Seq<char>>, u: SSub, b: Seq<u8>, k: int)
    requires b.len() >= 2, u.msg_id == le_u16(b), dec_data(fs, multi, u, b.skip(2), k, true) is Some,
        plain_fmt(fs, fs[u.name], b.skip(2), k), dec_fmt(fs, fs[u.name], b.skip(2), k, true)->Some_0.1.len() == 0,
    ensures ({ let m = dec_data(fs, multi, u, b.skip(2), k, true)->Some_0; content(m) == b && lengths_fit(m) && code_of(m) == 0x44 && !(m is Header) })
{
    let d = fs[u.name];
    let (f, rest) = dec_fmt(fs, d, b.skip(2), k, true)->Some_0;
    fmt_back(fs, d, b.skip(2), k);
    let g = SFmt { multi: if multi.contains(u.name) { Some(u.multi_id) } else { None }, ..f };
    assert(g.fields == f.fields);
    assert(enc_fmt(g) == enc_insts(g.fields, g.fields.len()));
    assert(enc_fmt(f) == enc_insts(f.fields, f.fields.len()));
    assert(enc_fmt(f) + rest =~= enc_fmt(f));
    num_back(b);
    assert(b.take(2) + b.skip(2) =~= b);
}
pub open spec fn written_as(m: SMsg, t: u8, b: Seq<u8>) -> bool { content(m) == b && lengths_fit(m) && code_of(m) == t && !(m is Header) }
pub proof fn infos_back(s: SSt, t: u8, b: Seq<u8>, k: int)
    requires t == 0x49 || t == 0x4d || t == 0x50 || t == 0x51, plain(s, t, b, k)
    ensures
        t == 0x49 && dec_info(s.fs, b, k, true) is Some ==> written_as(dec_info(s.fs, b, k, true)->Some_0, t, b),
        t == 0x4d && dec_multi_info(s.fs, b, k, true) is Some ==> written_as(dec_multi_info(s.fs, b, k, true)->Some_0, t, b),
        t == 0x50 && dec_param(b) is Some ==> written_as(dec_param(b)->Some_0, t, b),
        t == 0x51 && dec_def_param(b) is Some ==> written_as(dec_def_param(b)->Some_0, t, b),
{
    let c = b.skip(1);
    if t == 0x49 { if dec_info(s.fs, b, k, true) is Some { info_back(s, b, k); } }
    else if t == 0x4d { if dec_multi_info(s.fs, b, k, true) is Some {
        info_back(s, c, k);
        let f = dec_key(c)->Some_0.0;
        let v = dec_val(s.fs, f.ty, dec_key(c)->Some_0.1, k, true)->Some_0.0;
        assert(seq![b[0]] + c =~= b);
        seq_assoc(seq![b[0]], enc_lkey(f.ty, f.name), enc_val(v));
    } }
    else if t == 0x50 { if dec_param(b) is Some { param_back(b); } }
    else { if dec_def_param(b) is Some {
        param_back(c);
        let f = dec_key(c)->Some_0.0;
        let v = dec_param_val(f.ty, dec_key(c)->Some_0.1)->Some_0;
        assert(seq![b[0]] + c =~= b);
        seq_assoc(seq![b[0]], enc_lkey(f.ty, f.name), enc_val(v));
    } }
}
pub proof fn def_phase_back(s: SSt, t: u8, b: Seq<u8>, k: int)
    requires !s.data, plain(s, t, b, k), want_def(s.fs, t, b, k, true) is Some
    ensures written_as(want_def(s.fs, t, b, k, true)->Some_0, t, b)
{
    if t == 0x49 || t == 0x4d || t == 0x50 || t == 0x51 { infos_back(s, t, b, k); }
    else if t == 0x42 { flags_back(b); }
    else if t == 0x41 { sub_back(s.fs, b); }
    else if t == 0x46 {
        let d = choose|d: SDef| good_def(d) && b == utf8(#[trigger] def_str(d));
        enc_def_str(d); def_back(d);
    }
}
pub proof fn data_phase_back(s: SSt, t: u8, b: Seq<u8>, k: int)
    requires s.data, forall|id: u16| #[trigger] s.subs.contains_key(id) ==> s.subs[id].msg_id == id, plain(s, t, b, k), want_data(s.fs, s.subs, s.multi, None, t, b, k, true) is Some
    ensures written_as(want_data(s.fs, s.subs, s.multi, None, t, b, k, true)->Some_0, t, b)
{
    if t == 0x49 || t == 0x4d || t == 0x50 || t == 0x51 { infos_back(s, t, b, k); }
    else if t == 0x4f { num_back(b); assert(b.take(2) =~= b); }
    else if t == 0x41 { sub_back(s.fs, b); }
    else if t == 0x4c || t == 0x43 { log_back(b); }
    else if t == 0x44 { data_back(s.fs, s.multi, s.subs[le_u16(b)], b, k); }
}
/// C05: a message that is read from a plain message is written as the same bytes.
pub proof fn message_back(s: SSt, t: u8, b: Seq<u8>, k: int)
    requires forall|id: u16| #[trigger] s.subs.contains_key(id) ==> s.subs[id].msg_id == id, plain(s, t, b, k), st_want(s, t, b, k) is Some
    ensures written_as(st_want(s, t, b, k)->Some_0, t, b)
{
    if s.data { data_phase_back(s, t, b, k); } else { def_phase_back(s, t, b, k); }
}
// ---------------------------------------------------------------- logs
pub open spec fn size_of(b: Seq<u8>) -> int { un(b.take(2)) as int }
pub open spec fn has_one(b: Seq<u8>) -> bool { b.len() >= 3 && b.len() >= 3 + size_of(b) }
pub open spec fn ty_of(b: Seq<u8>) -> u8 { b[2] }
pub open spec fn body_of(b: Seq<u8>) -> Seq<u8> { b.skip(3).take(size_of(b)) }
pub open spec fn after_one(b: Seq<u8>) -> Seq<u8> { b.skip(3 + size_of(b)) }
/// The end of the stream, or where the appended data begins.
pub open spec fn at_end(s: SSt, b: Seq<u8>) -> bool { b.len() == 0 || (s.limit is Some && s.read >= s.limit->Some_0) }
/// The messages from here on are well-formed.
pub open spec fn good_msgs(s: SSt, b: Seq<u8>, k: int) -> bool decreases b.len() {
    at_end(s, b) || (has_one(b) && after_one(b).len() < b.len() && plain(s, ty_of(b), body_of(b), k) && st_want(s, ty_of(b), body_of(b), k) is Some
        && good_msgs(st_step(s, ty_of(b), body_of(b)), after_one(b), k))
}
pub open spec fn st0() -> SSt { SSt { fs: Map::empty(), subs: Map::empty(), multi: Set::empty(), limit: None, data: false, read: 16 } }
/// A well-formed log.
pub open spec fn good_log(b: Seq<u8>, k: int) -> bool { b.len() >= 16 && b.take(7) == magic() && good_msgs(st0(), b.skip(16), k) }
/// One message is written as the bytes it was read from.
pub proof fn one_back(s: SSt, b: Seq<u8>, k: int)
    requires forall|id: u16| #[trigger] s.subs.contains_key(id) ==> s.subs[id].msg_id == id, has_one(b), plain(s, ty_of(b), body_of(b), k), st_want(s, ty_of(b), body_of(b), k) is Some
    ensures ({ let m = st_want(s, ty_of(b), body_of(b), k)->Some_0; msg_fits(m) && b == frame(m) + after_one(b) })
{
    let m = st_want(s, ty_of(b), body_of(b), k)->Some_0;
    message_back(s, ty_of(b), body_of(b), k);
    un_bounds(b.take(2));
    le_un(2, b.take(2));
    assert(content(m).len() == size_of(b));
    assert(b =~= b.take(2) + seq![b[2]] + body_of(b) + after_one(b));
}
pub proof fn header_back(b: Seq<u8>)
    requires b.len() >= 16, b.take(7) == magic()
    ensures ({ let m = SMsg::Header { version: b[7], timestamp: le_u64(b.skip(8)) }; msg_fits(m) && b == frame(m) + b.skip(16) })
{
    num_back(b.skip(8));
    assert(b =~= b.take(7) + seq![b[7]] + b.skip(8).take(8) + b.skip(16));
}
/// With everything included, nothing is filtered.
pub proof fn filter_all(l: Seq<SInst>) ensures l.filter(keeper(true, true)) == l decreases l.len() {
    reveal(Seq::filter);
    if l.len() > 0 { filter_all(l.drop_last()); assert(l.drop_last().push(l.last()) =~= l); }
    else { assert(l.filter(keeper(true, true)) =~= l); }
}
pub proof fn filtered_all(m: SMsg) ensures filtered(m, true, true) == m {
    if let SMsg::Data { data, .. } = m { filter_all(data.fields); }
}
} // verus!
