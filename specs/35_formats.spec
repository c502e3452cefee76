@@ path lazy_static -
@@ path regex -
@@ rename parse x_parse
@@ item tokenizer::lazy_static
@ expect
lazy_static! {
    static ref TOKEN_REGEXP: Regex = Regex::new(
        r"(?P<identifier>[a-zA-Z_][a-zA-Z0-9_]*)|(?P<number>[0-9]+)|(?P<colon>:)|(?P<semicolon>;)|(?P<lbrace>\[)|(?P<rbrace>\])|(?P<whitespace>\s+)|(?P<unknown>.)"
    )
    .unwrap();
}
@ drop
the regular expression: its captures are the trusted contract of XRegex::captures_iter, checked by running the real tokenizer
@@ item tokenizer::Token
@ derive
Debug
@@ item tokenizer::TokenList
@ derive

@@ module tokenizer
@ items
use crate::ulog::*;
/// What a token stands for.
pub open spec fn tv(t: Token<'_>) -> STok {
    match t {
        Token::Identifier(s) => STok::Id(s@), Token::Number(n) => STok::Num(n), Token::Colon => STok::Colon, Token::Semicolon => STok::Semi,
        Token::LBrace => STok::LB, Token::RBrace => STok::RB, Token::Unknown(c) => STok::Unk(c),
    }
}
pub open spec fn tvs(q: Seq<Token<'_>>) -> Seq<STok> { Seq::new(q.len(), |i: int| tv(q[i])) }
pub broadcast proof fn tvs_skip(q: Seq<Token<'_>>, n: int) requires 0 <= n <= q.len() ensures #[trigger] tvs(q.skip(n)) == tvs(q).skip(n) { assert(tvs(q.skip(n)) =~= tvs(q).skip(n)); }
pub broadcast proof fn tvs_push(q: Seq<Token<'_>>, t: Token<'_>) ensures #[trigger] tvs(q.push(t)) == tvs(q).push(tv(t)) { assert(tvs(q.push(t)) =~= tvs(q).push(tv(t))); }
/// Tokens are compared by what they stand for.
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Token<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { tv(*self) == tv(*o) }
}
/// The regular expression of the tokenizer.
pub struct XRegex {}
pub const TOKEN_REGEXP: XRegex = XRegex {};
#[verifier::external_body]
pub struct XCaptures<'a> { s: &'a str }
pub struct XMatch<'a> { s: &'a str }
impl<'a> XMatch<'a> {
    pub closed spec fn t(&self) -> Seq<char> { self.s@ }
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.t() { self.s }
}
impl<'a> XCaptures<'a> {
    pub uninterp spec fn c(&self) -> SCap;
    #[verifier::external_body]
    pub fn name(&self, n: &str) -> (r: Option<XMatch<'a>>)
        ensures r is Some <==> n@ == cap_name(self.c().kind), r is Some ==> r->Some_0.t() == self.c().text { unimplemented!() }
}
impl XRegex {
    /// The captures of the regular expression, in order.
    #[verifier::external_body]
    pub fn captures_iter<'a>(&self, s: &'a str) -> (r: Vec<XCaptures<'a>>)
        ensures r@.len() == re_caps(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).c() == re_caps(s@)[i] { unimplemented!() }
}
@@ fn tokenizer::<PartialEq for Token>::eq
@ tags
C11 C17
@ optional
@ prologue
    broadcast use {str_ext};
@@ fn tokenizer::TokenList::new
@ spec
    ensures r.0.q() == $1.q(),
@@ fn tokenizer::TokenList::from_str
@ spec
    ensures /*@[C11,C17]*/ tvs(r.0.q()) == toks($1@),
@@ fn tokenizer::TokenList::is_empty
@ spec
    ensures r == (self.0.q().len() == 0),
@@ fn tokenizer::TokenList::remaining
@ spec
    ensures r == self.0.q().len(),
@@ fn tokenizer::TokenList::peek
@ spec
    ensures r is Some <==> self.0.q().len() > 0, r is Some ==> *r->Some_0 == self.0.q()[0],
@@ fn tokenizer::TokenList::consume_one
@ spec
    ensures
        r is Ok <==> old(self).0.q().len() >= 1,
        r is Ok ==> r->Ok_0 == old(self).0.q()[0] && final(self).0.q() == old(self).0.q().skip(1),
@@ fn tokenizer::TokenList::consume_two
@ spec
    ensures
        r is Ok <==> old(self).0.q().len() >= 2,
        r is Ok ==> r->Ok_0.0 == old(self).0.q()[0] && r->Ok_0.1 == old(self).0.q()[1] && final(self).0.q() == old(self).0.q().skip(2),
@ prologue
    proof { assert(self.0.q().len() >= 2 ==> self.0.q().skip(1).skip(1) =~= self.0.q().skip(2)); }
@@ fn tokenizer::TokenList::consume_three
@ spec
    ensures
        r is Ok <==> old(self).0.q().len() >= 3,
        r is Ok ==> r->Ok_0.0 == old(self).0.q()[0] && r->Ok_0.1 == old(self).0.q()[1] && r->Ok_0.2 == old(self).0.q()[2] && final(self).0.q() == old(self).0.q().skip(3),
@ prologue
    proof { assert(self.0.q().len() >= 3 ==> self.0.q().skip(1).skip(1).skip(1) =~= self.0.q().skip(3)); }
@@ fn tokenizer::tokenize
@ attr
#[verifier::loop_isolation(false)]
@ spec
    ensures /*@[C11,C17]*/ tvs(r.q()) == toks($1@),
@ prologue
    broadcast use {tvs_push};
    proof { caps_names(); assert(toks($1@) =~= cap_toks(re_caps($1@), re_caps($1@).len())); }
@ loop 0
    invariant
        tvs($let0.q()) == cap_toks(re_caps($1@), it0.index@ as nat),
@ loopbody 0
    broadcast use {tvs_push};
    proof { caps_names(); caps_text($1@, it0.index@ as int); }
@@ module formats
@ items
use crate::ulog::*;
use crate::tokenizer::{tv, tvs, tvs_skip};
broadcast use {tvs_skip, fields_push, svs_push};
@@ fn formats::parse_format
@ spec
    requires $1.wf(),
    ensures
        /*@[C11]*/ r is Ok <==> p_format($1.rem()) is Some,
        /*@[C11]*/ r is Ok ==> r->Ok_0.sv() == p_format($1.rem())->Some_0,
@ loop 0
    invariant
        p_fields(tvs($let1.0.q())) is Some <==> p_fields(toks(chars_of($1.rem())).skip(2)) is Some,
        p_fields(toks(chars_of($1.rem())).skip(2)) is Some ==> p_fields(toks(chars_of($1.rem())).skip(2))->Some_0 == $let3.sv() + p_fields(tvs($let1.0.q()))->Some_0,
    decreases $let1.0.q().len(),
@ loopbody 0
    proof { p_field_len(tvs($let1.0.q())); }
@@ fn formats::parse_field
@ spec
    ensures
        /*@[C11,C17]*/ r is Ok <==> p_field(tvs(old($1).0.q())) is Some,
        /*@[C11,C17]*/ r is Ok ==> r->Ok_0.sv() == p_field(tvs(old($1).0.q()))->Some_0.0 && tvs(final($1).0.q()) == p_field(tvs(old($1).0.q()))->Some_0.1,
@@ fn formats::def::BaseType::from_string
@ spec
    ensures /*@[C11,C17]*/ r.sv() == base_of($1@),
@ prologue
    broadcast use {str_ext};
    proof { prim_strs(); }
@@ fn formats::def::BaseType::is_other
@ spec
    ensures r == (self is OTHER),
