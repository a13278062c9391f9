// Contracts on the functions of Rust's core library that the proof of blitstr relies on, checked against the
// bodies in the toolchain's own source. tools/corelib.py replaces each placeholder by the body of that
// function as found in rust-src, after the rewrites listed there, and gives the result to Verus.
#![allow(unused_imports, dead_code, unused_braces, unused_unsafe)]
use vstd::prelude::*;
verus! {
use vstd::utf8::*;
use core::cmp::Ordering;
use core::cmp::Ordering::*;

// ---------------------------------------------------------------- <[u32]>::binary_search
pub open spec fn sorted(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// the comparison |p| p.cmp(x) handed to binary_search_by (Ord for u32 is the order of numbers)
pub fn cmp_u32(p: u32, x: u32) -> (r: Ordering)
    ensures r is Less <==> p < x, r is Equal <==> p == x, r is Greater <==> p > x
{ if p < x { Less } else if p == x { Equal } else { Greater } }
pub fn eq_ord(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b)
{ match (a, b) { (Less, Less) => true, (Equal, Equal) => true, (Greater, Greater) => true, _ => false } }
pub fn select(b: bool, t: usize, f: usize) -> (r: usize) ensures r == if b { t } else { f } { if b { t } else { f } }
pub fn as_usize(b: bool) -> (r: usize) ensures r == if b { 1usize } else { 0usize } { if b { 1 } else { 0 } }
/// hint::assert_unchecked and intrinsics::assume: must hold
pub fn must(b: bool) requires b { }

pub fn binary_search(s: &[u32], x: &u32) -> (r: core::result::Result<usize, usize>)
    ensures
        r is Ok ==> r.unwrap() < s@.len() && s@[r.unwrap() as int] == *x,
        r is Err && sorted(s@) ==> forall|i: int| 0 <= i < s@.len() ==> s@[i] != *x,
{
    //@body binary_search_by
}

// ---------------------------------------------------------------- decoding
/// core::slice::Iter<u8>, modelled as a slice and a position (pointer arithmetic in the library)
pub struct Iter<'a> { pub s: &'a [u8], pub i: usize }
impl<'a> Iter<'a> {
    pub open spec fn wf(&self) -> bool { self.i <= self.s@.len() }
    pub open spec fn rest(&self) -> Seq<u8> { self.s@.skip(self.i as int) }
    pub fn next(&mut self) -> (r: Option<&'a u8>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s == old(self).s,
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && *r->Some_0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    {
        if self.i < self.s.len() {
            let k = self.i;
            self.i = self.i + 1;
            assert(self.rest() =~= old(self).rest().skip(1));
            Some(&self.s[k])
        } else { None }
    }
    pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.rest().len() { self.s.len() - self.i }
}
fn iter<'a>(s: &'a [u8]) -> (r: Iter<'a>) ensures r.wf(), r.rest() == s@ { let r = Iter { s, i: 0 }; assert(r.rest() =~= s@); r }
const CONT_MASK: u8 = //@expr CONT_MASK
    ;
fn utf8_first_byte(byte: u8, width: u32) -> (r: u32)
    requires width == 2
    ensures r == (byte & 0x1f)
{
    proof { assert(0x7fu8 >> 2u32 == 0x1fu8) by (bit_vector); }
    //@body utf8_first_byte
}
fn utf8_acc_cont_byte(ch: u32, byte: u8) -> (r: u32)
    ensures r == (ch << 6) | (byte & 0x3f) as u32
{
    proof { assert(0b0011_1111u8 == 0x3fu8) by (bit_vector); }
    //@body utf8_acc_cont_byte
}
/// the first char of a text, byte by byte (from vstd's definition of UTF-8)
proof fn enc1(t: Seq<char>)
    ensures
       t.len() == 0 ==> encode_utf8(t).len() == 0,
       t.len() > 0 ==> ({ let c = t[0] as u32; let b = encode_utf8(t); let r = encode_utf8(t.drop_first());
           &&& is_scalar(c)
           &&& c < 0x80 ==> b.len() >= 1 && b[0] as u32 == c && b.skip(1) == r
           &&& 0x80 <= c < 0x800 ==> b.len() >= 2 && b[0] == (0xc0 | (((c >> 6u32) & 0x1f) as u8)) && b[1] == (0x80 | ((c & 0x3f) as u8)) && b.skip(1).skip(1) == r
           &&& 0x800 <= c < 0x10000 ==> b.len() >= 3 && b[0] == (0xe0 | (((c >> 12u32) & 0xf) as u8)) && b[1] == (0x80 | (((c >> 6u32) & 0x3f) as u8)) && b[2] == (0x80 | ((c & 0x3f) as u8)) && b.skip(1).skip(1).skip(1) == r
           &&& 0x10000 <= c ==> b.len() >= 4 && b[0] == (0xf0 | (((c >> 18u32) & 7) as u8)) && b[1] == (0x80 | (((c >> 12u32) & 0x3f) as u8)) && b[2] == (0x80 | (((c >> 6u32) & 0x3f) as u8)) && b[3] == (0x80 | ((c & 0x3f) as u8)) && b.skip(1).skip(1).skip(1).skip(1) == r && c < 0x110000
       }),
{
    if t.len() > 0 {
        let c = t[0] as u32; let b = encode_utf8(t); let r = encode_utf8(t.drop_first()); let e = encode_scalar(c);
        assert(b == e + r);
        char_is_scalar(t[0]);
        if c < 0x80 { assert(b.skip(1) =~= r); assert(c < 0x80 ==> (c & 0x7f) == c) by (bit_vector); }
        else if c < 0x800 { assert(b.skip(1).skip(1) =~= r); }
        else if c < 0x10000 { assert(b.skip(1).skip(1).skip(1) =~= r); }
        else { assert(b.skip(1).skip(1).skip(1).skip(1) =~= r); }
    }
}
proof fn bits2(c: u32, x: u8, y: u8)
    requires 0x80 <= c < 0x800, x == (0xc0 | (((c >> 6u32) & 0x1f) as u8)), y == (0x80 | ((c & 0x3f) as u8))
    ensures 0x80 <= x < 0xe0, (((x & 0x1f) as u32) << 6u32) | (y & 0x3f) as u32 == c
{
    assert(0x80 <= c < 0x800 && x == (0xc0 | (((c >> 6u32) & 0x1f) as u8)) && y == (0x80 | ((c & 0x3f) as u8))
       ==> 0x80 <= x < 0xe0 && (((x & 0x1f) as u32) << 6u32) | (y & 0x3f) as u32 == c) by (bit_vector);
}
proof fn bits3(c: u32, x: u8, y: u8, z: u8)
    requires 0x800 <= c < 0x10000, x == (0xe0 | (((c >> 12u32) & 0xf) as u8)), y == (0x80 | (((c >> 6u32) & 0x3f) as u8)), z == (0x80 | ((c & 0x3f) as u8))
    ensures 0xe0 <= x < 0xf0, ((x & 0x1f) as u32) << 12u32 | ((((y & 0x3f) as u32) << 6u32) | (z & 0x3f) as u32) == c
{
    assert(0x800 <= c < 0x10000 && x == (0xe0 | (((c >> 12u32) & 0xf) as u8)) && y == (0x80 | (((c >> 6u32) & 0x3f) as u8)) && z == (0x80 | ((c & 0x3f) as u8))
       ==> 0xe0 <= x < 0xf0 && ((x & 0x1f) as u32) << 12u32 | ((((y & 0x3f) as u32) << 6u32) | (z & 0x3f) as u32) == c) by (bit_vector);
}
proof fn bits4(c: u32, x: u8, y: u8, z: u8, w: u8)
    requires 0x10000 <= c < 0x110000, x == (0xf0 | (((c >> 18u32) & 7) as u8)), y == (0x80 | (((c >> 12u32) & 0x3f) as u8)), z == (0x80 | (((c >> 6u32) & 0x3f) as u8)), w == (0x80 | ((c & 0x3f) as u8))
    ensures 0xf0 <= x, (((x & 0x1f) as u32) & 7) << 18u32 | ((((((y & 0x3f) as u32) << 6u32) | (z & 0x3f) as u32) << 6u32) | (w & 0x3f) as u32) == c
{
    assert(0x10000 <= c < 0x110000 && x == (0xf0 | (((c >> 18u32) & 7) as u8)) && y == (0x80 | (((c >> 12u32) & 0x3f) as u8)) && z == (0x80 | (((c >> 6u32) & 0x3f) as u8)) && w == (0x80 | ((c & 0x3f) as u8))
       ==> 0xf0 <= x && (((x & 0x1f) as u32) & 7) << 18u32 | ((((((y & 0x3f) as u32) << 6u32) | (z & 0x3f) as u32) << 6u32) | (w & 0x3f) as u32) == c) by (bit_vector);
}
pub fn next_code_point(bytes: &mut Iter<'_>, Ghost(t): Ghost<Seq<char>>) -> (r: Option<u32>)
    requires old(bytes).wf(), old(bytes).rest() == encode_utf8(t)
    ensures final(bytes).wf(), final(bytes).s == old(bytes).s,
      t.len() == 0 ==> r is None && final(bytes).rest() == encode_utf8(t),
      t.len() > 0 ==> r == Some(t[0] as u32) && final(bytes).rest() == encode_utf8(t.drop_first()),
{
    proof {
        enc1(t);
        assert(0b0011_1111u8 == 0x3fu8) by (bit_vector);
        if t.len() > 0 {
            let c = t[0] as u32;
            let b = encode_utf8(t);
            if c < 0x80 {} else if c < 0x800 { bits2(c, b[0], b[1]); } else if c < 0x10000 { bits3(c, b[0], b[1], b[2]); } else { bits4(c, b[0], b[1], b[2], b[3]); }
        }
    }
    //@body next_code_point
}

// ---------------------------------------------------------------- Chars, CharIndices
/// char::from_u32_unchecked: the char of that number
#[verifier::external_body]
fn from_u32_unchecked(ch: u32) -> (r: char)
    requires is_scalar(ch)
    ensures r as u32 == ch
{ unsafe { char::from_u32_unchecked(ch) } }
pub struct Chars<'a> { pub iter: Iter<'a> }
impl<'a> Chars<'a> {
    /// what remains is the text t
    pub open spec fn rep(&self, t: Seq<char>) -> bool { self.iter.wf() && self.iter.rest() == encode_utf8(t) }
    pub fn next(&mut self, Ghost(t): Ghost<Seq<char>>) -> (r: Option<char>)
        requires old(self).rep(t)
        ensures final(self).iter.s == old(self).iter.s,
          t.len() == 0 ==> r is None && final(self).rep(t),
          t.len() > 0 ==> r == Some(t[0]) && final(self).rep(t.drop_first()),
    {
        proof { if t.len() > 0 { char_is_scalar(t[0]); } }
        //@body chars_next
    }
}
pub struct CharIndices<'a> { pub front_offset: usize, pub iter: Chars<'a> }
pub open spec fn ulen(s: Seq<char>) -> int { encode_utf8(s).len() as int }
pub proof fn step(s: Seq<char>, k: int)
  requires 0 <= k < s.len()
  ensures ulen(s.take(k+1)) == ulen(s.take(k)) + ulen(s.skip(k)) - ulen(s.skip(k+1)),
     ulen(s.take(k)) + ulen(s.skip(k)) == ulen(s),
     s.skip(k)[0] == s[k], s.skip(k).drop_first() == s.skip(k+1)
{
  let (a, b, c, d) = (s.take(k), s.skip(k), s.take(k+1), s.skip(k+1));
  assert(a + b =~= s); encode_utf8_concat(a, b);
  assert(c + d =~= s); encode_utf8_concat(c, d);
  assert(encode_utf8(s) == encode_utf8(a) + encode_utf8(b));
  assert(encode_utf8(s) == encode_utf8(c) + encode_utf8(d));
  assert(ulen(s) == ulen(a) + ulen(b));
  assert(ulen(s) == ulen(c) + ulen(d));
  assert(b.drop_first() =~= d);
}
impl<'a> CharIndices<'a> {
    /// pos chars of src have been taken
    pub open spec fn rep(&self, src: Seq<char>, pos: int) -> bool {
        &&& 0 <= pos <= src.len()
        &&& self.iter.rep(src.skip(pos))
        &&& self.front_offset == ulen(src.take(pos))
        &&& ulen(src) <= usize::MAX
    }
    pub fn next(&mut self, Ghost(src): Ghost<Seq<char>>, Ghost(pos): Ghost<int>) -> (r: Option<(usize, char)>)
        requires old(self).rep(src, pos)
        ensures
            pos >= src.len() ==> r is None && final(self).rep(src, pos),
            pos < src.len() ==> r is Some && final(self).rep(src, pos + 1) && r->Some_0.0 == ulen(src.take(pos)) && r->Some_0.1 == src[pos],
    {
        proof { if pos < src.len() { step(src, pos); if pos + 1 < src.len() { step(src, pos + 1); } else { assert(src.take(pos + 1) =~= src); } } }
        //@body char_indices_next
    }
}

// ---------------------------------------------------------------- str
/// a str: the bytes of its text
#[derive(Clone, Copy)]
pub struct Str<'a> { pub b: &'a [u8] }
pub struct RangeFrom { pub start: usize }
pub struct RangeTo { pub end: usize }
impl<'a> Str<'a> {
    pub open spec fn rep(&self, t: Seq<char>) -> bool { self.b@ == encode_utf8(t) }
    pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { self.b.len() }
    pub fn as_bytes(&self) -> (r: &'a [u8]) ensures r == self.b { self.b }
    pub fn chars(&self, Ghost(t): Ghost<Seq<char>>) -> (r: Chars<'a>)
        requires self.rep(t)
        ensures r.rep(t)
    {
        //@body str_chars
    }
    pub fn char_indices(&self, Ghost(t): Ghost<Seq<char>>) -> (r: CharIndices<'a>)
        requires self.rep(t)
        ensures r.rep(t, 0)
    {
        proof { assert(self.b@.len() == vstd::slice::spec_slice_len(self.b)); assert(t.skip(0) =~= t); assert(t.take(0) =~= Seq::<char>::empty()); }
        //@body str_char_indices
    }
    pub fn is_char_boundary(&self, index: usize, Ghost(t): Ghost<Seq<char>>) -> (r: bool)
        requires self.rep(t)
        ensures r == (index <= self.b@.len() && is_char_boundary(encode_utf8(t), index as int))
    {
        proof {
            encode_utf8_valid_utf8(t);
            is_char_boundary_start_end_of_seq(self.b@);
            if index < self.b@.len() { is_char_boundary_iff_not_is_continuation_byte(self.b@, index as int); }
        }
        //@body is_char_boundary
    }
    /// get_unchecked of a byte range (pointer arithmetic in the library): the range must lie within the str
    pub fn sub(&self, a: usize, b: usize) -> (r: Str<'a>)
        requires a <= b <= self.b@.len()
        ensures r.b@ == self.b@.subrange(a as int, b as int)
    { Str { b: vstd::slice::slice_subrange(self.b, a, b) } }
}
fn slice_error_fail<'a>(s: Str<'a>, a: usize, b: usize) -> (r: Str<'a>)
    requires false
{ s }
fn is_utf8_char_boundary(x: u8) -> (r: bool)
    ensures r == !is_continuation_byte(x)
{
    proof { assert(((x as i8) >= -0x40) == !(0x80 <= x <= 0xbf)) by (bit_vector); }
    //@body is_utf8_char_boundary
}
impl RangeFrom {
    pub fn get<'a>(&self, slice: Str<'a>, Ghost(t): Ghost<Seq<char>>) -> (r: Option<Str<'a>>)
        requires slice.rep(t)
        ensures ({ let b = encode_utf8(t); if self.start <= b.len() && is_char_boundary(b, self.start as int) { r is Some && r->Some_0.b@ == b.subrange(self.start as int, b.len() as int) } else { r is None } })
    {
        //@body range_from_get
    }
    fn get_unchecked<'a>(&self, slice: Str<'a>) -> (r: Str<'a>)
        requires self.start <= slice.b@.len()
        ensures r.b@ == slice.b@.subrange(self.start as int, slice.b@.len() as int)
    {
        //@body range_from_get_unchecked
    }
    pub fn index<'a>(&self, slice: Str<'a>, Ghost(t): Ghost<Seq<char>>) -> (r: Str<'a>)
        requires slice.rep(t), self.start <= encode_utf8(t).len(), is_char_boundary(encode_utf8(t), self.start as int)
        ensures r.b@ == encode_utf8(t).subrange(self.start as int, encode_utf8(t).len() as int)
    {
        //@body range_from_index
    }
}
impl RangeTo {
    pub fn get<'a>(&self, slice: Str<'a>, Ghost(t): Ghost<Seq<char>>) -> (r: Option<Str<'a>>)
        requires slice.rep(t)
        ensures ({ let b = encode_utf8(t); if self.end <= b.len() && is_char_boundary(b, self.end as int) { r is Some && r->Some_0.b@ == b.subrange(0, self.end as int) } else { r is None } })
    {
        //@body range_to_get
    }
    fn get_unchecked<'a>(&self, slice: Str<'a>) -> (r: Str<'a>)
        requires self.end <= slice.b@.len()
        ensures r.b@ == slice.b@.subrange(0, self.end as int)
    {
        //@body range_to_get_unchecked
    }
    pub fn index<'a>(&self, slice: Str<'a>, Ghost(t): Ghost<Seq<char>>) -> (r: Str<'a>)
        requires slice.rep(t), self.end <= encode_utf8(t).len(), is_char_boundary(encode_utf8(t), self.end as int)
        ensures r.b@ == encode_utf8(t).subrange(0, self.end as int)
    {
        //@body range_to_index
    }
}

// ---------------------------------------------------------------- u32::rotate_left
pub open spec fn rotl(x: u32, n: u32) -> u32 { (x << n) | (x >> ((32 - n) as u32)) }
fn disjoint_bitor(a: u32, b: u32) -> (r: u32) requires a & b == 0 ensures r == a | b { a | b }
fn unchecked_shl(a: u32, n: u32) -> (r: u32) requires n < 32 ensures r == a << n { a << n }
fn unchecked_shr(a: u32, n: u32) -> (r: u32) requires n < 32 ensures r == a >> n { a >> n }
fn unchecked_funnel_shl(this: u32, right: u32, shift: u32) -> (r: u32)
    requires shift < 32
    ensures 0 < shift && this == right ==> r == rotl(this, shift)
{
    proof {
        if shift > 0 {
            let m = (32 - shift) as u32;
            assert(0 < shift < 32 && m == 32 - shift ==> (this << shift) & (right >> m) == 0) by (bit_vector);
        }
    }
    //@body unchecked_funnel_shl
}
pub fn rotate_left(x: u32, shift: u32) -> (r: u32)
    ensures 0 < shift < 32 ==> r == rotl(x, shift)
{
    proof { assert(4u32 * 8 == 32); assert(shift < 32 ==> shift % 32 == shift); }
    //@body rotate_left
}
fn main() {}
}
