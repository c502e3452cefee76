//! Ghost vocabulary and contracts of the standard library functions that the code calls.
//! Everything marked external_body, uninterp or axiom here is trusted and listed in the evidence.
use vstd::prelude::*;
use std::rc::Rc;
verus! {
// a 64-bit target
global size_of usize == 8;

// ---------------------------------------------------------------- little-endian numbers
/// The n little-endian bytes of x.
pub open spec fn le(n: nat, x: nat) -> Seq<u8> decreases n {
    if n == 0 { seq![] } else { seq![(x % 256) as u8] + le((n - 1) as nat, x / 256) }
}
/// The number whose little-endian bytes are b.
pub open spec fn un(b: Seq<u8>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else { b[0] as nat + 256 * un(b.skip(1)) }
}
pub broadcast proof fn le_len(n: nat, x: nat) ensures #[trigger] le(n, x).len() == n decreases n {
    if n > 0 { le_len((n - 1) as nat, x / 256); }
}
pub broadcast proof fn le_one(x: nat) requires x < 256 ensures #[trigger] le(1, x) == seq![x as u8] { reveal_with_fuel(le, 2); assert(le(1, x) =~= seq![x as u8]); }
pub broadcast proof fn le_un(n: nat, b: Seq<u8>)
    requires b.len() == n
    ensures #[trigger] le(n, un(b)) == b
    decreases n
{
    if n > 0 {
        let t = b.skip(1);
        le_un((n - 1) as nat, t);
        let x = un(b);
        assert(x == b[0] as nat + 256 * un(t));
        assert(x % 256 == b[0] as nat && x / 256 == un(t)) by (nonlinear_arith)
            requires x == b[0] as nat + 256 * un(t), (b[0] as nat) < 256;
        assert(seq![b[0]] + t =~= b);
        assert(le(n, x) =~= b);
    } else {
        assert(b =~= seq![]);
    }
}
pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub broadcast proof fn un_le(n: nat, x: nat)
    requires x < pow256(n)
    ensures un(#[trigger] le(n, x)) == x
    decreases n
{
    if n > 0 {
        assert(x / 256 < pow256((n - 1) as nat)) by (nonlinear_arith)
            requires x < 256 * pow256((n - 1) as nat);
        un_le((n - 1) as nat, x / 256);
        let b = le(n, x);
        assert(b.skip(1) =~= le((n - 1) as nat, x / 256));
        assert(b[0] == (x % 256) as u8);
        assert(un(b) == x);
    } else {
        assert(le(0, x) =~= seq![]);
    }
}
pub proof fn pow256_values()
    ensures pow256(1) == 0x100, pow256(2) == 0x10000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000
{
    assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
    assert(pow256(4) == 0x1_0000_0000) by (compute);
    assert(pow256(2) == 0x10000) by (compute);
    assert(pow256(1) == 0x100) by (compute);
}
pub broadcast proof fn un_le8(v: u64) ensures #[trigger] un(le(8, v as nat)) == v { pow256_values(); un_le(8, v as nat); }
pub proof fn un_small(b: Seq<u8>)
    ensures b.len() == 1 ==> un(b) == b[0], b.len() == 2 ==> un(b) == b[0] + 256 * b[1], un(b) < pow256(b.len()),
    decreases b.len()
{
    if b.len() > 0 {
        un_small(b.skip(1));
        assert(un(b) < pow256(b.len())) by (nonlinear_arith)
            requires un(b) == b[0] as nat + 256 * un(b.skip(1)), (b[0] as nat) < 256, un(b.skip(1)) < pow256((b.len() - 1) as nat),
                pow256(b.len()) == 256 * pow256((b.len() - 1) as nat);
    }
}

pub proof fn un_bounds(b: Seq<u8>) ensures b.len() == 2 ==> un(b) <= 0xffff, b.len() == 8 ==> un(b) <= 0xffff_ffff_ffff_ffff, b.len() == 4 ==> un(b) <= 0xffff_ffff {
    un_small(b); pow256_values();
}
// ---------------------------------------------------------------- numeric types as bytes
pub open spec fn i8n(x: i8) -> nat { #[verifier::truncate] (x as u8) as nat }
pub broadcast proof fn i8_cast(b: u8) ensures #[trigger] i8n(#[verifier::truncate] (b as i8)) == b { assert(((b as i8) as u8) == b) by (bit_vector); }
pub open spec fn i16n(x: i16) -> nat { if x < 0 { (x + 0x1_0000) as nat } else { x as nat } }
pub open spec fn i32n(x: i32) -> nat { if x < 0 { (x + 0x1_0000_0000) as nat } else { x as nat } }
pub open spec fn i64n(x: i64) -> nat { if x < 0 { (x + 0x1_0000_0000_0000_0000) as nat } else { x as nat } }
/// The bits of a floating point number.
pub uninterp spec fn f32n(x: f32) -> u32;
pub uninterp spec fn f64n(x: f64) -> u64;

pub fn x_le_2(x: u64) -> (r: [u8; 2]) ensures r@ == le(2, x as nat) {
    let y = x;
    let b0 = (y % 256) as u8; let y = y / 256;
    let b1 = (y % 256) as u8; let y = y / 256;
    let r = [b0, b1];
    proof { reveal_with_fuel(le, 3); assert(r@ =~= le(2, x as nat)); }
    r
}
pub fn x_le_4(x: u64) -> (r: [u8; 4]) ensures r@ == le(4, x as nat) {
    let y = x;
    let b0 = (y % 256) as u8; let y = y / 256;
    let b1 = (y % 256) as u8; let y = y / 256;
    let b2 = (y % 256) as u8; let y = y / 256;
    let b3 = (y % 256) as u8; let y = y / 256;
    let r = [b0, b1, b2, b3];
    proof { reveal_with_fuel(le, 5); assert(r@ =~= le(4, x as nat)); }
    r
}
pub fn x_le_8(x: u64) -> (r: [u8; 8]) ensures r@ == le(8, x as nat) {
    let y = x;
    let b0 = (y % 256) as u8; let y = y / 256;
    let b1 = (y % 256) as u8; let y = y / 256;
    let b2 = (y % 256) as u8; let y = y / 256;
    let b3 = (y % 256) as u8; let y = y / 256;
    let b4 = (y % 256) as u8; let y = y / 256;
    let b5 = (y % 256) as u8; let y = y / 256;
    let b6 = (y % 256) as u8; let y = y / 256;
    let b7 = (y % 256) as u8; let y = y / 256;
    let r = [b0, b1, b2, b3, b4, b5, b6, b7];
    proof { reveal_with_fuel(le, 9); assert(r@ =~= le(8, x as nat)); }
    r
}
/// The number that n little-endian bytes stand for.
pub fn x_un(b: &[u8], n: usize) -> (r: u64) requires n <= 8, n <= b@.len() ensures r == un(b@.take(n as int)) {
    let mut i = n;
    let mut x: u64 = 0;
    proof { pow256_values(); assert(b@.subrange(n as int, n as int) =~= seq![]); }
    while i > 0
        invariant 0 <= i <= n <= 8, n <= b@.len(), x == un(b@.subrange(i as int, n as int)),
        decreases i
    {
        i -= 1;
        proof {
            let t = b@.subrange(i as int, n as int);
            assert(t.skip(1) =~= b@.subrange(i + 1, n as int));
            assert(t[0] == b@[i as int]);
            un_small(t.skip(1));
            un_small(t);
            pow256_values();
            assert(pow256(3) == 0x100_0000 && pow256(5) == 0x100_0000_0000 && pow256(6) == 0x1_0000_0000_0000 && pow256(7) == 0x100_0000_0000_0000 && pow256(0) == 1) by (compute);
        }
        x = 256 * x + b[i] as u64;
    }
    proof { assert(b@.subrange(0, n as int) =~= b@.take(n as int)); }
    x
}
pub trait XLe2: Sized {
    spec fn lb(self) -> Seq<u8>;
    fn x_to_le_bytes(self) -> (r: [u8; 2]) ensures r@ == self.lb();
}
impl XLe2 for u16 {
    open spec fn lb(self) -> Seq<u8> { le(2, self as nat) }
    fn x_to_le_bytes(self) -> (r: [u8; 2]) { x_le_2(self as u64) }
}
impl XLe2 for i16 {
    open spec fn lb(self) -> Seq<u8> { le(2, i16n(self)) }
    fn x_to_le_bytes(self) -> (r: [u8; 2]) { x_le_2(if self < 0 { (self as i64 + 0x1_0000) as u64 } else { self as u64 }) }
}
pub trait XLe4: Sized {
    spec fn lb(self) -> Seq<u8>;
    fn x_to_le_bytes(self) -> (r: [u8; 4]) ensures r@ == self.lb();
}
impl XLe4 for u32 {
    open spec fn lb(self) -> Seq<u8> { le(4, self as nat) }
    fn x_to_le_bytes(self) -> (r: [u8; 4]) { x_le_4(self as u64) }
}
impl XLe4 for i32 {
    open spec fn lb(self) -> Seq<u8> { le(4, i32n(self)) }
    fn x_to_le_bytes(self) -> (r: [u8; 4]) { x_le_4(if self < 0 { (self as i64 + 0x1_0000_0000) as u64 } else { self as u64 }) }
}
impl XLe4 for f32 {
    open spec fn lb(self) -> Seq<u8> { le(4, f32n(self) as nat) }
    #[verifier::external_body]
    fn x_to_le_bytes(self) -> [u8; 4] { self.to_le_bytes() }
}
pub trait XLe8: Sized {
    spec fn lb(self) -> Seq<u8>;
    fn x_to_le_bytes(self) -> (r: [u8; 8]) ensures r@ == self.lb();
}
impl XLe8 for u64 {
    open spec fn lb(self) -> Seq<u8> { le(8, self as nat) }
    fn x_to_le_bytes(self) -> (r: [u8; 8]) { x_le_8(self) }
}
impl XLe8 for i64 {
    open spec fn lb(self) -> Seq<u8> { le(8, i64n(self)) }
    fn x_to_le_bytes(self) -> (r: [u8; 8]) { x_le_8(if self < 0 { (self as i128 + 0x1_0000_0000_0000_0000) as u64 } else { self as u64 }) }
}
impl XLe8 for f64 {
    open spec fn lb(self) -> Seq<u8> { le(8, f64n(self) as nat) }
    #[verifier::external_body]
    fn x_to_le_bytes(self) -> [u8; 8] { self.to_le_bytes() }
}

// ---------------------------------------------------------------- deep views, clones, conversions
/// What a value means, down to the contents of shared pointers and vectors.
pub trait XView {
    type SV;
    spec fn sv(&self) -> Self::SV;
}
impl XView for str { type SV = Seq<char>; open spec fn sv(&self) -> Seq<char> { self@ } }
impl XView for String { type SV = Seq<char>; open spec fn sv(&self) -> Seq<char> { self@ } }
impl<T: XView + ?Sized> XView for Rc<T> { type SV = T::SV; open spec fn sv(&self) -> T::SV { (**self).sv() } }
impl<'a, T: XView + ?Sized> XView for &'a T { type SV = T::SV; open spec fn sv(&self) -> T::SV { (**self).sv() } }
impl XView for u8 { type SV = u8; open spec fn sv(&self) -> u8 { *self } }
impl XView for u16 { type SV = u16; open spec fn sv(&self) -> u16 { *self } }
impl XView for u32 { type SV = u32; open spec fn sv(&self) -> u32 { *self } }
impl XView for u64 { type SV = u64; open spec fn sv(&self) -> u64 { *self } }
impl XView for usize { type SV = usize; open spec fn sv(&self) -> usize { *self } }
impl XView for i8 { type SV = i8; open spec fn sv(&self) -> i8 { *self } }
impl XView for i16 { type SV = i16; open spec fn sv(&self) -> i16 { *self } }
impl XView for i32 { type SV = i32; open spec fn sv(&self) -> i32 { *self } }
impl XView for i64 { type SV = i64; open spec fn sv(&self) -> i64 { *self } }
impl XView for bool { type SV = bool; open spec fn sv(&self) -> bool { *self } }
impl XView for f32 { type SV = f32; open spec fn sv(&self) -> f32 { *self } }
impl XView for f64 { type SV = f64; open spec fn sv(&self) -> f64 { *self } }
pub open spec fn svs<T: XView>(s: Seq<T>) -> Seq<T::SV> { Seq::new(s.len(), |i: int| s[i].sv()) }
pub broadcast proof fn svs_u8(s: Seq<u8>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_u16(s: Seq<u16>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_u32(s: Seq<u32>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_u64(s: Seq<u64>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_i8(s: Seq<i8>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_i16(s: Seq<i16>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_i32(s: Seq<i32>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_i64(s: Seq<i64>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_bool(s: Seq<bool>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_f32(s: Seq<f32>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast proof fn svs_f64(s: Seq<f64>) ensures #[trigger] svs(s) == s { assert(svs(s) =~= s); }
pub broadcast group svs_prims { svs_u8, svs_u16, svs_u32, svs_u64, svs_i8, svs_i16, svs_i32, svs_i64, svs_bool, svs_f32, svs_f64 }
pub broadcast proof fn svs_push<T: XView>(s: Seq<T>, x: T) ensures #[trigger] svs(s.push(x)) == svs(s).push(x.sv()) { assert(svs(s.push(x)) =~= svs(s).push(x.sv())); }
impl<T: XView> XView for Vec<T> { type SV = Seq<T::SV>; open spec fn sv(&self) -> Seq<T::SV> { svs(self@) } }
impl<T: XView> XView for Option<T> {
    type SV = Option<T::SV>;
    open spec fn sv(&self) -> Option<T::SV> { match self { Some(x) => Some(x.sv()), None => None } }
}

/// Clone: the copy means the same.
pub trait XClone: XView + Sized {
    fn x_clone(&self) -> (r: Self) ensures r.sv() == self.sv();
}
impl XClone for String {
    fn x_clone(&self) -> (r: Self) { self.clone() }
}
impl<T: XView + ?Sized> XClone for Rc<T> {
    fn x_clone(&self) -> (r: Self) { self.clone() }
}
impl XClone for u8 { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for u16 { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for u32 { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for u64 { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for usize { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for i8 { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for i16 { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for i32 { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for i64 { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for bool { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for f32 { fn x_clone(&self) -> (r: Self) { *self } }
impl XClone for f64 { fn x_clone(&self) -> (r: Self) { *self } }
impl<T: XClone> XClone for Option<T> {
    fn x_clone(&self) -> (r: Self) { match self { Some(x) => Some(x.x_clone()), None => None } }
}
pub proof fn x_copied<T: XView>(s: Seq<T>, v: Seq<T>, n: int)
    requires 0 <= n < s.len(), v.len() > 0, svs(v.drop_last()) == svs(s).take(n), v.last().sv() == s[n].sv(),
    ensures svs(v) == svs(s).take(n + 1),
{ assert(svs(s).take(n + 1) =~= svs(s).take(n).push(svs(s)[n])); svs_push(v.drop_last(), v.last()); assert(v.drop_last().push(v.last()) =~= v); }
pub proof fn x_copied_all<T: XView>(s: Seq<T>, v: Seq<T>)
    requires svs(v) == svs(s).take(s.len() as int),
    ensures svs(v) == svs(s),
{ assert(svs(s).take(s.len() as int) =~= svs(s)); }
impl<T: XClone> XClone for Vec<T> {
    fn x_clone(&self) -> (r: Self) {
        let mut r: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), svs(r@) == svs(self@).take(i as int)
            decreases self.len() - i
        {
            let ghost x_old = r@;
            r.push(self[i].x_clone());
            proof { assert(r@.drop_last() =~= x_old); x_copied(self@, r@, i as int); }
            i += 1;
        }
        proof { x_copied_all(self@, r@); }
        r
    }
}

/// to_string() / to_owned(): what Display prints.
pub trait XToString {
    spec fn disp(&self) -> Seq<char>;
    fn x_to_string(&self) -> (r: String) ensures r@ == self.disp();
}
impl XToString for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    fn x_to_string(&self) -> String { self.to_owned() }
}
impl XToString for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    fn x_to_string(&self) -> String { self.clone() }
}
impl<T: XToString + ?Sized> XToString for Rc<T> {
    open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    fn x_to_string(&self) -> String { (**self).x_to_string() }
}
impl<'a, T: XToString + ?Sized> XToString for &'a T {
    open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    fn x_to_string(&self) -> String { (**self).x_to_string() }
}
impl XToString for usize {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    fn x_to_string(&self) -> String { x_dec(*self) }
}
fn x_digit(d: usize) -> (r: &'static str) requires d < 10 ensures r@ == seq![digit(d as nat)] {
    proof { reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("2"); reveal_strlit("3"); reveal_strlit("4"); reveal_strlit("5"); reveal_strlit("6"); reveal_strlit("7"); reveal_strlit("8"); reveal_strlit("9"); }
    let r = match d { 0 => "0", 1 => "1", 2 => "2", 3 => "3", 4 => "4", 5 => "5", 6 => "6", 7 => "7", 8 => "8", _ => "9" };
    assert(r@ =~= seq![digit(d as nat)]);
    r
}
fn x_dec(n: usize) -> (r: String) ensures r@ == dec(n as nat) decreases n {
    if n < 10 { x_digit(n).to_owned() } else {
        let mut s = x_dec(n / 10);
        s.append(x_digit(n % 10));
        assert(s@ =~= dec(n as nat));
        s
    }
}
/// Decimal digits.
pub open spec fn digit(d: nat) -> char { (48 + d) as u8 as char }
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}

pub trait XInto<T>: Sized {
    spec fn into_ok(self, r: T) -> bool;
    fn x_into(self) -> (r: T) ensures self.into_ok(r);
}
impl XInto<String> for String {
    open spec fn into_ok(self, r: String) -> bool { r@ == self@ }
    fn x_into(self) -> (r: String) { self }
}
impl<'a> XInto<String> for &'a str {
    open spec fn into_ok(self, r: String) -> bool { r@ == self@ }
    fn x_into(self) -> (r: String) { self.to_owned() }
}
impl<'a> XInto<Rc<str>> for &'a str {
    open spec fn into_ok(self, r: Rc<str>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn x_into(self) -> (r: Rc<str>) { self.into() }
}
impl XInto<Rc<str>> for String {
    open spec fn into_ok(self, r: Rc<str>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn x_into(self) -> (r: Rc<str>) { self.into() }
}
/// Shared::from
pub trait XSharedFrom<T: ?Sized>: Sized { 
    spec fn shared_ok(self, r: Rc<T>) -> bool;
    fn shared(self) -> (r: Rc<T>) ensures self.shared_ok(r);
}
impl XSharedFrom<str> for String {
    open spec fn shared_ok(self, r: Rc<str>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn shared(self) -> Rc<str> { Rc::from(self) }
}
impl<'a> XSharedFrom<str> for &'a str {
    open spec fn shared_ok(self, r: Rc<str>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn shared(self) -> Rc<str> { Rc::from(self) }
}
impl XSharedFrom<str> for Rc<str> {
    open spec fn shared_ok(self, r: Rc<str>) -> bool { r@ == self@ }
    fn shared(self) -> Rc<str> { self }
}
pub fn x_shared_from<T: ?Sized, S: XSharedFrom<T>>(s: S) -> (r: Rc<T>) ensures s.shared_ok(r) { s.shared() }

/// Try conversions between integers.
pub fn x_size_of_4() -> (r: usize) ensures r == 4 { 4 }
pub fn x_size_of_8() -> (r: usize) ensures r == 8 { 8 }
#[derive(Debug)]
pub struct XTryFromIntError {}
pub fn x_u16_try_from(n: usize) -> (r: Result<u16, XTryFromIntError>)
    ensures n <= 0xffff ==> r is Ok && r->Ok_0 == n, n > 0xffff ==> r is Err
{ if n <= 0xffff { Ok(n as u16) } else { Err(XTryFromIntError {}) } }
pub fn x_u8_try_from(n: usize) -> (r: Result<u8, XTryFromIntError>)
    ensures n <= 0xff ==> r is Ok && r->Ok_0 == n, n > 0xff ==> r is Err
{ if n <= 0xff { Ok(n as u8) } else { Err(XTryFromIntError {}) } }

/// Slice to array.
pub trait XTryInto<T>: Sized {
    spec fn try_ok(self) -> bool;
    spec fn try_is(self, r: T) -> bool;
    fn x_try_into(self) -> (r: Result<T, XTryFromIntError>) ensures r is Ok <==> self.try_ok(), r is Ok ==> self.try_is(r->Ok_0);
}
impl<'a> XTryInto<[u8; 8]> for &'a [u8] {
    open spec fn try_ok(self) -> bool { self@.len() == 8 }
    open spec fn try_is(self, r: [u8; 8]) -> bool { r@ == self@ }
    fn x_try_into(self) -> (r: Result<[u8; 8], XTryFromIntError>) {
        if self.len() != 8 { return Err(XTryFromIntError {}); }
        let a = [self[0], self[1], self[2], self[3], self[4], self[5], self[6], self[7]];
        assert(a@ =~= self@);
        Ok(a)
    }
}

// ---------------------------------------------------------------- strings
pub trait XStr {
    spec fn chars(&self) -> Seq<char>;
    fn x_starts_with(&self, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(self.chars());
    fn x_contains(&self, p: &str) -> (r: bool);
    fn x_trim_end_matches(&self, c: char) -> (r: &str) ensures is_trimmed_str(r@, self.chars(), c);
}
impl XStr for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    fn x_starts_with(&self, p: &str) -> bool {
        let (n, m) = (self.unicode_len(), p.unicode_len());
        if n < m { return false; }
        let mut i: usize = 0;
        while i < m
            invariant m <= self@.len(), m == p@.len(), i <= m, forall|j: int| 0 <= j < i ==> self@[j] == p@[j]
            decreases m - i
        {
            if self.get_char(i) != p.get_char(i) { return false; }
            i += 1;
        }
        proof { assert(p@ =~= self@.take(m as int)); }
        true
    }
    #[verifier::external_body]
    fn x_contains(&self, p: &str) -> bool { self.contains(p) }
    fn x_trim_end_matches(&self, c: char) -> (r: &str) {
        let mut n = self.unicode_len();
        while n > 0 && self.get_char(n - 1) == c
            invariant n <= self@.len(), forall|i: int| n <= i < self@.len() ==> (#[trigger] self@[i]) == c
            decreases n
        { n -= 1; }
        self.substring_char(0, n)
    }
}
pub broadcast axiom fn str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b;

/// UTF-8
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn utf8_ok(b: Seq<u8>) -> bool { vstd::utf8::valid_utf8(b) }
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { vstd::utf8::decode_utf8(b) }

/// String::from_utf8_lossy
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn lossy_utf8(b: Seq<u8>) ensures utf8_ok(b) ==> #[trigger] lossy(b) == chars_of(b);
pub struct XCow { s: String }
impl XCow {
    pub closed spec fn sv(&self) -> Seq<char> { self.s@ }
    pub fn into_owned(self) -> (r: String) ensures r@ == self.sv() { self.s }
}
#[verifier::external_body]
pub fn x_from_utf8_lossy(b: &[u8]) -> (r: XCow) ensures r.sv() == lossy(b@) { unimplemented!() }
pub assume_specification [u8::is_ascii] (b: &u8) -> (r: bool) ensures r == (*b < 128);
pub fn x_char_from(b: u8) -> (r: char) ensures r == b as char { b as char }
/// t is s without the c's at its end
pub open spec fn is_trimmed_str(t: Seq<char>, s: Seq<char>, c: char) -> bool {
    &&& t.len() <= s.len() && t == s.take(t.len() as int)
    &&& t.len() == 0 || t.last() != c
    &&& forall|i: int| t.len() <= i < s.len() ==> (#[trigger] s[i]) == c
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

pub assume_specification [std::string::String::from_utf8] (v: std::vec::Vec<u8>) -> (r: std::result::Result<std::string::String, std::string::FromUtf8Error>)
    ensures r is Ok <==> utf8_ok(v@), r is Ok ==> r->Ok_0@ == chars_of(v@);
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8])
    ensures r@ == utf8(s@);
pub trait XToVec<T> { spec fn sl(&self) -> Seq<T>; fn x_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.sl(); }
impl XToVec<u8> for [u8] {
    open spec fn sl(&self) -> Seq<u8> { self@ }
    fn x_to_vec(&self) -> (r: Vec<u8>) { let mut v = Vec::new(); v.extend_from_slice(self); assert(v@ =~= self@); v }
}
pub assume_specification<T: std::marker::MetaSized + ?Sized, A: std::alloc::Allocator> [<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref] (s: &std::rc::Rc<T, A>) -> (r: &T)
    ensures r == &**s;

pub trait XSlice { spec fn bs(&self) -> Seq<u8>; fn x_bytes(&self) -> (r: &[u8]) ensures r@ == self.bs(); }
impl XSlice for [u8] { open spec fn bs(&self) -> Seq<u8> { self@ } fn x_bytes(&self) -> (r: &[u8]) { self } }
impl<const N: usize> XSlice for [u8; N] { open spec fn bs(&self) -> Seq<u8> { self@ } fn x_bytes(&self) -> (r: &[u8]) { self } }
impl<'a, T: XSlice + ?Sized> XSlice for &'a T { open spec fn bs(&self) -> Seq<u8> { (**self).bs() } fn x_bytes(&self) -> (r: &[u8]) { (**self).x_bytes() } }
/// Comparison of byte slices.
pub fn x_slice_eq<A: XSlice + ?Sized, B: XSlice + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.bs() == b.bs()) {
    let (x, y) = (a.x_bytes(), b.x_bytes());
    if x.len() != y.len() { return false; }
    let mut i: usize = 0;
    while i < x.len()
        invariant x@ == a.bs(), y@ == b.bs(), i <= x@.len(), x@.len() == y@.len(), forall|j: int| 0 <= j < i ==> x@[j] == y@[j]
        decreases x@.len() - i
    {
        if x[i] != y[i] { assert(x@[i as int] != y@[i as int]); return false; }
        i += 1;
    }
    proof { assert(x@ =~= y@); }
    true
}
/// format!(): some text.
#[verifier::external_body]
pub fn x_format() -> (r: String) { String::new() }
// ---------------------------------------------------------------- panics, allocation
/// unreachable!(), panic!(): must not be reached.
#[verifier::external_body]
pub fn x_unreachable<T>() -> T requires false { unreachable!() }
pub fn x_assert(b: bool) requires b {}
/// The largest number of elements that may be allocated on the word of the input: a message's size is 16 bits.
pub open spec fn msg_max() -> nat { 65535 }
pub fn x_with_capacity<T>(n: usize) -> (r: Vec<T>) requires n <= msg_max() ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
pub fn x_with_capacity_len<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::new() }
pub fn x_vec_elem(x: u8, n: usize) -> (r: Vec<u8>) requires n <= msg_max() ensures r@ == Seq::new(n as nat, |i: int| x) {
    let mut v = Vec::new();
    while v.len() < n invariant v.len() <= n, v@ =~= Seq::new(v.len() as nat, |i: int| x) decreases n - v.len() { v.push(x); }
    v
}

// ---------------------------------------------------------------- iterators over slices
/// What an iterator still has to deliver.
pub struct XIter<T> { pub v: Vec<T> }
impl<T> XIter<T> {
    pub open spec fn s(&self) -> Seq<T> { self.v@ }
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((self.s()[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self.s().len() && #[trigger] f.ensures((self.s()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.s().len() ==> f.ensures((#[trigger] self.s()[i],), false),
    {
        let mut v = self.v;
        let ghost mut n: int = 0;
        while v.len() > 0
            invariant
                0 <= n <= self.s().len(), v@ == self.s().skip(n),
                forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((self.s()[i],)),
                forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] self.s()[i],), false),
            decreases v.len()
        {
            assert(self.s().skip(n)[0] == self.s()[n]);
            assert(f.requires((self.s()[n],)));
            let x = v.remove(0);
            if f(x) { assert(f.ensures((self.s()[n],), true)); return true; }
            proof { assert(v@ =~= self.s().skip(n + 1)); n = n + 1; }
        }
        false
    }
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((self.s()[i],)),
        ensures
            !r ==> exists|i: int| 0 <= i < self.s().len() && #[trigger] f.ensures((self.s()[i],), false),
            r ==> forall|i: int| 0 <= i < self.s().len() ==> f.ensures((#[trigger] self.s()[i],), true),
    {
        let mut v = self.v;
        let ghost mut n: int = 0;
        while v.len() > 0
            invariant
                0 <= n <= self.s().len(), v@ == self.s().skip(n),
                forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((self.s()[i],)),
                forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] self.s()[i],), true),
            decreases v.len()
        {
            assert(self.s().skip(n)[0] == self.s()[n]);
            assert(f.requires((self.s()[n],)));
            let x = v.remove(0);
            if !f(x) { assert(f.ensures((self.s()[n],), false)); return false; }
            proof { assert(v@ =~= self.s().skip(n + 1)); n = n + 1; }
        }
        true
    }
    pub fn skip(self, n: usize) -> (r: Self) ensures r.s() == self.s().skip(if n <= self.s().len() { n as int } else { self.s().len() as int }),
            forall|i: int| #![trigger self.s()[i]] n <= i < self.s().len() ==> r.s()[i - n] == self.s()[i]
    {
        let mut v = self.v;
        let mut k = 0;
        while k < n && v.len() > 0
            invariant k <= n, k <= self.s().len(), v@ == self.s().skip(k as int),
            decreases v.len()
        {
            v.remove(0);
            proof { assert(v@ =~= self.s().skip(k + 1)); }
            k += 1;
        }
        XIter { v }
    }
    pub fn rev(self) -> (r: Self) ensures r.s() == self.s().reverse(), forall|i: int| #![trigger self.s()[i]] 0 <= i < self.s().len() ==> r.s()[self.s().len() - 1 - i] == self.s()[i]
    {
        let mut v = self.v;
        let mut o: Vec<T> = Vec::new();
        while v.len() > 0
            invariant v.len() + o.len() == self.s().len(), v@ == self.s().take(v.len() as int),
                forall|i: int| 0 <= i < o.len() ==> o@[i] == self.s()[self.s().len() - 1 - i],
            decreases v.len()
        {
            let x = v.pop().unwrap();
            o.push(x);
            proof { assert(v@ =~= self.s().take(v.len() as int)); }
        }
        proof { assert(o@ =~= self.s().reverse()); }
        XIter { v: o }
    }
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((&self.s()[i],)),
        ensures
            r is None ==> forall|i: int| #![trigger self.s()[i]] 0 <= i < self.s().len() ==> f.ensures((&self.s()[i],), false),
            r is Some ==> exists|i: int| 0 <= i < self.s().len() && r->Some_0 == self.s()[i] && #[trigger] f.ensures((&self.s()[i],), true)
                && forall|j: int| #![trigger self.s()[j]] 0 <= j < i ==> f.ensures((&self.s()[j],), false),
    {
        let mut v = self.v;
        let ghost mut n: int = 0;
        while v.len() > 0
            invariant
                0 <= n <= self.s().len(), v@ == self.s().skip(n),
                forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((&self.s()[i],)),
                forall|i: int| #![trigger self.s()[i]] 0 <= i < n ==> f.ensures((&self.s()[i],), false),
            decreases v.len()
        {
            assert(self.s().skip(n)[0] == self.s()[n]);
            assert(f.requires((&self.s()[n],)));
            let x = v.remove(0);
            if f(&x) { assert(f.ensures((&self.s()[n],), true)); return Some(x); }
            proof { assert(v@ =~= self.s().skip(n + 1)); n = n + 1; }
        }
        None
    }
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: XIter<U>)
        requires forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((self.s()[i],)),
        ensures r.s().len() == self.s().len(),
            forall|i: int| #![trigger r.s()[i]] #![trigger self.s()[i]] 0 <= i < r.s().len() ==> f.ensures((self.s()[i],), r.s()[i]),
    {
        let mut v = self.v;
        let mut o: Vec<U> = Vec::new();
        while v.len() > 0
            invariant
                v.len() + o.len() == self.s().len(), v@ == self.s().skip(o.len() as int),
                forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((self.s()[i],)),
                forall|i: int| #![trigger o@[i]] #![trigger self.s()[i]] 0 <= i < o.len() ==> f.ensures((self.s()[i],), o@[i]),
            decreases v.len()
        {
            assert(self.s().skip(o.len() as int)[0] == self.s()[o.len() as int]);
            assert(f.requires((self.s()[o.len() as int],)));
            let x = v.remove(0);
            let ghost n = o.len() as int;
            o.push(f(x));
            proof { assert(v@ =~= self.s().skip(n + 1)); }
        }
        XIter { v: o }
    }
    pub fn enumerate(self) -> (r: XIter<(usize, T)>)
        ensures r.s().len() == self.s().len(), forall|i: int| #![trigger r.s()[i]] #![trigger self.s()[i]] 0 <= i < r.s().len() ==> r.s()[i].0 == i && r.s()[i].1 == self.s()[i],
    {
        let mut v = self.v;
        let mut o: Vec<(usize, T)> = Vec::new();
        while v.len() > 0
            invariant
                v.len() + o.len() == self.s().len(), v@ == self.s().skip(o.len() as int),
                forall|i: int| #![trigger o@[i]] #![trigger self.s()[i]] 0 <= i < o.len() ==> o@[i].0 == i && o@[i].1 == self.s()[i],
            decreases v.len()
        {
            assert(self.s().skip(o.len() as int)[0] == self.s()[o.len() as int]);
            let n = o.len();
            let x = v.remove(0);
            o.push((n, x));
            proof { assert(v@ =~= self.s().skip(n + 1)); }
        }
        XIter { v: o }
    }
    pub fn collect<C: XFromIter<T>>(self) -> (r: C) ensures r.from_ok(self.s()) { C::x_from_iter(self) }
}
impl<'a, T: XClone> XIter<&'a T> {
    pub fn cloned(self) -> (r: XIter<T>)
        ensures r.s().len() == self.s().len(), forall|i: int| #![trigger r.s()[i]] #![trigger self.s()[i]] 0 <= i < r.s().len() ==> r.s()[i].sv() == (*self.s()[i]).sv(),
    {
        let mut o: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i == o.len(), i <= self.v.len(),
                forall|i: int| #![trigger o@[i]] #![trigger self.s()[i]] 0 <= i < o.len() ==> o@[i].sv() == (*self.s()[i]).sv(),
            decreases self.v.len() - i
        {
            o.push(self.v[i].x_clone());
            i += 1;
        }
        XIter { v: o }
    }
}
/// FromIterator
pub trait XFromIter<T>: Sized {
    spec fn from_ok(&self, s: Seq<T>) -> bool;
    fn x_from_iter(i: XIter<T>) -> (r: Self) ensures r.from_ok(i.s());
}
impl<T> XFromIter<T> for Vec<T> {
    open spec fn from_ok(&self, s: Seq<T>) -> bool { self@ == s }
    fn x_from_iter(i: XIter<T>) -> (r: Self) { i.v }
}
/// IntoIterator
pub trait XIntoIterator: Sized { type Item; spec fn its(self) -> Seq<Self::Item>; fn x_into_iter(self) -> (r: XIter<Self::Item>) ensures r.s() == self.its(); }
pub trait XIterable<T> {
    spec fn els(&self) -> Seq<T>;
    fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>)
        ensures r.s().len() == self.els().len(), forall|i: int| #![trigger r.s()[i]] #![trigger self.els()[i]] 0 <= i < r.s().len() ==> *(r.s()[i]) == self.els()[i];
}
pub fn x_refs<'a, T>(s: &'a [T]) -> (r: XIter<&'a T>)
    ensures r.s().len() == s@.len(), forall|i: int| #![trigger r.s()[i]] #![trigger s@[i]] 0 <= i < r.s().len() ==> *(r.s()[i]) == s@[i]
{
    let mut o: Vec<&'a T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i == o.len(), i <= s@.len(), forall|i: int| #![trigger o@[i]] #![trigger s@[i]] 0 <= i < o.len() ==> *(o@[i]) == s@[i]
        decreases s@.len() - i
    {
        o.push(&s[i]);
        i += 1;
    }
    XIter { v: o }
}
impl<T> XIterable<T> for Vec<T> {
    open spec fn els(&self) -> Seq<T> { self@ }
    fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) { x_refs(self.as_slice()) }
}
impl<T, const N: usize> XIterable<T> for [T; N] {
    open spec fn els(&self) -> Seq<T> { self@ }
    fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) { x_refs(self.as_slice()) }
}
/// An array, element by element.
impl<T, const N: usize> XIntoIterator for [T; N] {
    type Item = T;
    open spec fn its(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn x_into_iter(self) -> (r: XIter<T>) { unimplemented!() }
}
impl<T> XIntoIterator for Vec<T> {
    type Item = T;
    open spec fn its(self) -> Seq<T> { self@ }
    fn x_into_iter(self) -> (r: XIter<T>) { XIter { v: self } }
}
impl<T> XIntoIterator for XIter<T> {
    type Item = T;
    open spec fn its(self) -> Seq<T> { self.s() }
    fn x_into_iter(self) -> (r: XIter<T>) { self }
}
/// Extend
pub trait XExtend<T>: Sized {
    spec fn extended(&self, by: Seq<T>, o: &Self) -> bool;
    fn x_extend<I: XIntoIterator<Item = T>>(&mut self, i: I) ensures old(self).extended(i.its(), final(self));
}
impl<T> XExtend<T> for Vec<T> {
    open spec fn extended(&self, by: Seq<T>, o: &Self) -> bool { o@ == self@ + by }
    fn x_extend<I: XIntoIterator<Item = T>>(&mut self, i: I) {
        let mut o = i.x_into_iter();
        self.append(&mut o.v);
    }
}
pub fn x_into_of<S: XInto<T>, T>(s: S) -> (r: T) ensures s.into_ok(r) { s.x_into() }
/// Joined text: only used for error messages.
pub trait XJoin { fn x_join(&self, sep: &str) -> (r: String); }
impl<'a> XJoin for Vec<&'a str> {
    #[verifier::external_body]
    fn x_join(&self, sep: &str) -> String { self.join(sep) }
}
pub assume_specification<'a, T: Copy> [std::option::Option::<&'a T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r == (match o { None => None::<T>, Some(x) => Some(*x) });
pub trait XRetain<T> {
    spec fn now(&self) -> Seq<T>;
    fn x_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).now().len() ==> #[trigger] f.requires((&old(self).now()[i],)),
        ensures forall|q: spec_fn(T) -> bool|
            (forall|i: int, b: bool| 0 <= i < old(self).now().len() && #[trigger] f.ensures((&old(self).now()[i],), b) ==> b == q(old(self).now()[i]))
            ==> final(self).now() == #[trigger] old(self).now().filter(q);
}
impl<T> XRetain<T> for Vec<T> {
    open spec fn now(&self) -> Seq<T> { self@ }
    fn x_retain<F: Fn(&T) -> bool>(&mut self, f: F) {
        let ghost all = self@;
        proof { assert(all == old(self).now()); }
        let mut o: Vec<T> = Vec::new();
        assert forall|i: int| 0 <= i < all.len() implies #[trigger] f.requires((&all[i],)) by { assert(f.requires((&old(self).now()[i],))); }
        let ghost mut n: int = 0;
        while self.len() > 0
            invariant
                0 <= n <= all.len(), self@ == all.skip(n), all == old(self)@,
                forall|i: int| 0 <= i < all.len() ==> #[trigger] f.requires((&all[i],)),
                forall|q: spec_fn(T) -> bool|
                    (forall|i: int, b: bool| 0 <= i < all.len() && #[trigger] f.ensures((&all[i],), b) ==> b == q(all[i]))
                    ==> o@ == #[trigger] all.take(n).filter(q),
            decreases self.len()
        {
            assert(all.skip(n)[0] == all[n]);
            assert(f.requires((&all[n],)));
            let x = self.remove(0);
            let ghost p = o@;
            let keep = f(&x);
            assert(f.ensures((&all[n],), keep));
            if keep { o.push(x); }
            proof {
                assert(self@ =~= all.skip(n + 1));
                assert forall|q: spec_fn(T) -> bool|
                    (forall|i: int, b: bool| 0 <= i < all.len() && #[trigger] f.ensures((&all[i],), b) ==> b == q(all[i]))
                    implies o@ == #[trigger] all.take(n + 1).filter(q) by
                {
                    assert(p == all.take(n).filter(q));
                    assert(all.take(n + 1) =~= all.take(n).push(all[n]));
                    assert(all.take(n).push(all[n]).drop_last() =~= all.take(n));
                    reveal(Seq::filter);
                    assert(keep == q(all[n]));
                }
                n = n + 1;
            }
        }
        proof { assert(all.take(n) =~= all); }
        *self = o;
    }
}

// ---------------------------------------------------------------- sequences
pub broadcast proof fn seq_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn cseq_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn seq_add_empty(a: Seq<u8>) ensures #[trigger] (a + Seq::<u8>::empty()) == a { assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast proof fn seq_empty_add(a: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + a) == a { assert(Seq::<u8>::empty() + a =~= a); }
pub broadcast proof fn seq_push_drop<T>(a: Seq<T>, x: T) ensures #[trigger] a.push(x).drop_last() == a { assert(a.push(x).drop_last() =~= a); }
pub broadcast proof fn svs_push_all<T: XView>(a: Seq<T>, b: Seq<T>) ensures #[trigger] svs(a + b) == svs(a) + svs(b) { assert(svs(a + b) =~= svs(a) + svs(b)); }
pub broadcast proof fn seq_skip_skip(a: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= a.len()
    ensures #[trigger] a.skip(i).skip(j) == a.skip(i + j)
{ assert(a.skip(i).skip(j) =~= a.skip(i + j)); }
pub broadcast proof fn seq_sub_sub(a: Seq<u8>, i: int, j: int, k: int, l: int)
    requires 0 <= i, i <= j <= a.len(), 0 <= k, k <= l <= j - i
    ensures #[trigger] a.subrange(i, j).subrange(k, l) == a.subrange(i + k, i + l)
{ assert(a.subrange(i, j).subrange(k, l) =~= a.subrange(i + k, i + l)); }
pub broadcast proof fn seq_skip_take(a: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= a.len()
    ensures #[trigger] a.skip(i).take(j) == a.subrange(i, i + j)
{ assert(a.skip(i).take(j) =~= a.subrange(i, i + j)); }
} // verus!
verus! {
/// str::parse::<usize>() of digits.
pub trait XParse { spec fn ds(&self) -> Seq<char>; fn x_parse<T>(&self) -> (r: Result<usize, XParseError>)
    requires self.ds().len() > 0, forall|i: int| 0 <= i < self.ds().len() ==> crate::ulog::is_digit(#[trigger] self.ds()[i])
    ensures r is Ok <==> crate::ulog::num(self.ds()) <= usize::MAX, r is Ok ==> r->Ok_0 == crate::ulog::num(self.ds()); }
#[derive(Debug)]
pub struct XParseError {}
proof fn num_take(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures crate::ulog::num(s.take(n)) <= crate::ulog::num(s)
    decreases s.len() - n
{
    if n < s.len() {
        num_take(s, n + 1);
        assert(s.take(n + 1).drop_last() =~= s.take(n));
    } else { assert(s.take(n) =~= s); }
}
impl XParse for str {
    open spec fn ds(&self) -> Seq<char> { self@ }
    fn x_parse<T>(&self) -> (r: Result<usize, XParseError>) {
        let n = self.unicode_len();
        let mut i: usize = 0;
        let mut x: usize = 0;
        while i < n
            invariant
                n == self@.len(), i <= n, x == crate::ulog::num(self@.take(i as int)),
                forall|i: int| 0 <= i < self@.len() ==> crate::ulog::is_digit(#[trigger] self@[i]),
            decreases n - i
        {
            let d = self.get_char(i) as usize - 48;
            proof {
                let t = self@.take(i + 1);
                assert(t.drop_last() =~= self@.take(i as int));
                assert(crate::ulog::num(t) == 10 * x + d);
                num_take(self@, i + 1);
            }
            if x > (usize::MAX - d) / 10 { return Err(XParseError {}); }
            x = 10 * x + d;
            i += 1;
        }
        proof { assert(self@.take(n as int) =~= self@); }
        Ok(x)
    }
}
} // verus!
