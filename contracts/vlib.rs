// Specification library: bit-level reasoning, UTF-8 slicing, and the mathematical
// meaning of painting.  Everything here is ghost code or a lemma; the lemmas are
// proved by Verus in the same run as the code.
#[allow(unused_imports)] use vstd::prelude::*;

/*@@TABLES@@*/
/*@@PART BEGIN@@*/

pub mod bits {
use vstd::prelude::*;

/// Bit i of a word (least significant is bit 0); false outside 0..32
#[verifier::opaque]
pub open spec fn bit(w: u32, i: int) -> bool { 0 <= i < 32 && ((w >> (i as u32)) & 1u32) == 1u32 }

pub broadcast proof fn bit_range(a: u32, i: int)
    ensures #[trigger] bit(a, i) ==> 0 <= i < 32
{ reveal(bit); }
pub broadcast proof fn bit_xor(a: u32, b: u32, i: int)
    ensures #[trigger] bit(a ^ b, i) == (bit(a, i) != bit(b, i))
{
    reveal(bit);
    if 0 <= i < 32 { let k = i as u32; assert(((a ^ b) >> k) & 1 == 1 <==> (((a >> k) & 1) == 1) != (((b >> k) & 1) == 1)) by(bit_vector); }
}
pub broadcast proof fn bit_or(a: u32, b: u32, i: int)
    ensures #[trigger] bit(a | b, i) == (bit(a, i) || bit(b, i))
{
    reveal(bit);
    if 0 <= i < 32 { let k = i as u32; assert(((a | b) >> k) & 1 == 1 <==> (((a >> k) & 1) == 1) || (((b >> k) & 1) == 1)) by(bit_vector); }
}
pub broadcast proof fn bit_and(a: u32, b: u32, i: int)
    ensures #[trigger] bit(a & b, i) == (bit(a, i) && bit(b, i))
{
    reveal(bit);
    if 0 <= i < 32 { let k = i as u32; assert(((a & b) >> k) & 1 == 1 <==> (((a >> k) & 1) == 1) && (((b >> k) & 1) == 1)) by(bit_vector); }
}
pub broadcast proof fn bit_not(a: u32, i: int)
    ensures #[trigger] bit(!a, i) == (0 <= i < 32 && !bit(a, i))
{
    reveal(bit);
    if 0 <= i < 32 { let k = i as u32; assert(((!a) >> k) & 1 == 1 <==> !(((a >> k) & 1) == 1)) by(bit_vector) requires k < 32; }
}
proof fn shl_u32(a: u32, t: u32, i: int)
    requires t < 32
    ensures bit(a << t, i) == (i < 32 && bit(a, i - t))
{
    reveal(bit);
    if 0 <= i < 32 { let k = i as u32;
        if k >= t { let m = (k - t) as u32; assert(((a << t) >> k) & 1 == (a >> m) & 1) by(bit_vector) requires t <= k < 32, m == k - t; }
        else { assert(((a << t) >> k) & 1 == 0) by(bit_vector) requires k < t < 32; }
    }
}
proof fn shr_u32(a: u32, t: u32, i: int)
    requires t < 32
    ensures bit(a >> t, i) == (i >= 0 && bit(a, i + t))
{
    reveal(bit);
    if 0 <= i < 32 { let k = i as u32;
        if k + t < 32 { let m = (k + t) as u32; assert(((a >> t) >> k) & 1 == (a >> m) & 1) by(bit_vector) requires t < 32 && k < 32, m == k + t, m < 32; }
        else { assert(((a >> t) >> k) & 1 == 0) by(bit_vector) requires k + t >= 32, k < 32, t < 32; }
    }
}
pub broadcast proof fn bit_shl(a: u32, s: usize, i: int)
    requires s < 32
    ensures #[trigger] bit(a << s, i) == (i < 32 && bit(a, i - s))
{
    let t = s as u32;
    assert(a << s == a << t) by(bit_vector) requires t == s as u32, s < 32;
    shl_u32(a, t, i);
}
pub broadcast proof fn bit_shl32(a: u32, s: u32, i: int)
    requires s < 32
    ensures #[trigger] bit(a << s, i) == (i < 32 && bit(a, i - s))
{ shl_u32(a, s, i); }
pub broadcast proof fn bit_shr(a: u32, s: usize, i: int)
    requires s < 32
    ensures #[trigger] bit(a >> s, i) == (i >= 0 && bit(a, i + s))
{
    let t = s as u32;
    assert(a >> s == a >> t) by(bit_vector) requires t == s as u32, s < 32;
    shr_u32(a, t, i);
}
pub broadcast proof fn bit_shr32(a: u32, s: u32, i: int)
    requires s < 32
    ensures #[trigger] bit(a >> s, i) == (i >= 0 && bit(a, i + s))
{ shr_u32(a, s, i); }
pub broadcast proof fn bit_ones(i: int)
    ensures #[trigger] bit(0xffffffffu32, i) == (0 <= i < 32)
{ reveal(bit); if 0 <= i < 32 { let k = i as u32; assert((0xffffffffu32 >> k) & 1 == 1) by(bit_vector) requires k < 32; } }
pub broadcast proof fn bit_zero(i: int)
    ensures #[trigger] bit(0u32, i) == false
{ reveal(bit); if 0 <= i < 32 { let k = i as u32; assert((0u32 >> k) & 1 == 0) by(bit_vector) requires k < 32; } }
/// Bit i of a double word
#[verifier::opaque]
pub open spec fn bit64(w: u64, i: int) -> bool { 0 <= i < 64 && ((w >> (i as u64)) & 1u64) == 1u64 }
pub broadcast proof fn b64_of(a: u32, i: int)
    ensures #[trigger] bit64(a as u64, i) == bit(a, i)
{
    reveal(bit); reveal(bit64);
    if 0 <= i < 64 {
        let k = i as u64;
        if i < 32 { let m = i as u32; assert(((a as u64) >> k) & 1 == 1 <==> (a >> m) & 1 == 1) by(bit_vector) requires k == m, m < 32; }
        else { assert(((a as u64) >> k) & 1 == 0) by(bit_vector) requires 32 <= k < 64; }
    }
}
pub broadcast proof fn b64_low(w: u64, i: int)
    ensures #[trigger] bit(w as u32, i) == (i < 32 && bit64(w, i))
{
    reveal(bit); reveal(bit64);
    if 0 <= i < 32 { let k = i as u64; let m = i as u32; assert(((w as u32) >> m) & 1 == 1 <==> (w >> k) & 1 == 1) by(bit_vector) requires k == m, m < 32; }
}
proof fn shl_u64(a: u64, t: u64, i: int)
    requires t < 64
    ensures bit64(a << t, i) == (i < 64 && bit64(a, i - t))
{
    reveal(bit64);
    if 0 <= i < 64 { let k = i as u64;
        if k >= t { let m = (k - t) as u64; assert(((a << t) >> k) & 1 == (a >> m) & 1) by(bit_vector) requires t <= k < 64, m == k - t; }
        else { assert(((a << t) >> k) & 1 == 0) by(bit_vector) requires k < t < 64; }
    }
}
proof fn shr_u64(a: u64, t: u64, i: int)
    requires t < 64
    ensures bit64(a >> t, i) == (i >= 0 && bit64(a, i + t))
{
    reveal(bit64);
    if 0 <= i < 64 { let k = i as u64;
        if k + t < 64 { let m = (k + t) as u64; assert(((a >> t) >> k) & 1 == (a >> m) & 1) by(bit_vector) requires t < 64 && k < 64, m == k + t, m < 64; }
        else { assert(((a >> t) >> k) & 1 == 0) by(bit_vector) requires k + t >= 64, k < 64, t < 64; }
    }
}
pub broadcast proof fn b64_shl(a: u64, s: usize, i: int)
    requires s < 64
    ensures #[trigger] bit64(a << s, i) == (i < 64 && bit64(a, i - s))
{ let t = s as u64; assert(a << s == a << t) by(bit_vector) requires t == s as u64, s < 64; shl_u64(a, t, i); }
pub broadcast proof fn b64_shr(a: u64, s: usize, i: int)
    requires s < 64
    ensures #[trigger] bit64(a >> s, i) == (i >= 0 && bit64(a, i + s))
{ let t = s as u64; assert(a >> s == a >> t) by(bit_vector) requires t == s as u64, s < 64; shr_u64(a, t, i); }
pub broadcast proof fn b64_shl64(a: u64, s: u64, i: int)
    requires s < 64
    ensures #[trigger] bit64(a << s, i) == (i < 64 && bit64(a, i - s))
{ shl_u64(a, s, i); }
pub broadcast proof fn b64_shr64(a: u64, s: u64, i: int)
    requires s < 64
    ensures #[trigger] bit64(a >> s, i) == (i >= 0 && bit64(a, i + s))
{ shr_u64(a, s, i); }
pub broadcast proof fn b64_or(a: u64, b: u64, i: int)
    ensures #[trigger] bit64(a | b, i) == (bit64(a, i) || bit64(b, i))
{
    reveal(bit64);
    if 0 <= i < 64 { let k = i as u64; assert(((a | b) >> k) & 1 == 1 <==> (((a >> k) & 1) == 1) || (((b >> k) & 1) == 1)) by(bit_vector); }
}
pub broadcast proof fn b64_xor(a: u64, b: u64, i: int)
    ensures #[trigger] bit64(a ^ b, i) == (bit64(a, i) != bit64(b, i))
{
    reveal(bit64);
    if 0 <= i < 64 { let k = i as u64; assert(((a ^ b) >> k) & 1 == 1 <==> (((a >> k) & 1) == 1) != (((b >> k) & 1) == 1)) by(bit_vector); }
}
pub broadcast proof fn b64_and(a: u64, b: u64, i: int)
    ensures #[trigger] bit64(a & b, i) == (bit64(a, i) && bit64(b, i))
{
    reveal(bit64);
    if 0 <= i < 64 { let k = i as u64; assert(((a & b) >> k) & 1 == 1 <==> (((a >> k) & 1) == 1) && (((b >> k) & 1) == 1)) by(bit_vector); }
}
pub broadcast proof fn b64_ones(i: int)
    ensures #[trigger] bit64(0xffffffffffffffffu64, i) == (0 <= i < 64)
{ reveal(bit64); if 0 <= i < 64 { let k = i as u64; assert((0xffffffffffffffffu64 >> k) & 1 == 1) by(bit_vector) requires k < 64; } }
pub broadcast group group_bits64 { b64_of, b64_low, b64_shl, b64_shr, b64_shl64, b64_shr64, b64_or, b64_xor, b64_and, b64_ones }
pub broadcast proof fn usize_shr5(x: usize)
    ensures #[trigger] (x >> 5) == x / 32
{ assert(x >> 5 == x / 32) by(bit_vector); }
pub broadcast proof fn usize_and1f(x: usize)
    ensures #[trigger] (x & 0x1f) == x % 32
{ assert(x & 0x1f == x % 32) by(bit_vector); }
// glyph header unpacking: (w << 16) | (h << 8) | y_offset
#[verifier::opaque]
pub open spec fn hw(d: u32) -> int { (d / 0x10000) as int % 0x100 }
#[verifier::opaque]
pub open spec fn hh(d: u32) -> int { (d / 0x100) as int % 0x100 }
#[verifier::opaque]
pub open spec fn hy(d: u32) -> int { d as int % 0x100 }
pub broadcast proof fn hdr1(x: u32) ensures #[trigger] ((x << 8) >> 24) == hw(x) { reveal(hw); assert((x << 8) >> 24 == (x / 0x10000) % 0x100) by(bit_vector); }
pub broadcast proof fn hdr2(x: u32) ensures #[trigger] ((x << 16) >> 24) == hh(x) { reveal(hh); assert((x << 16) >> 24 == (x / 0x100) % 0x100) by(bit_vector); }
pub broadcast proof fn hdr3(x: u32) ensures #[trigger] (x & 0xff) == hy(x) { reveal(hy); assert(x & 0xff == x % 0x100) by(bit_vector); }
pub broadcast proof fn hdr4(x: u32) ensures #[trigger] ((x >> 16) & 0xff) == hw(x) { reveal(hw); assert((x >> 16) & 0xff == (x / 0x10000) % 0x100) by(bit_vector); }
pub broadcast proof fn hdr5(x: u32) ensures #[trigger] ((x >> 8) & 0xff) == hh(x) { reveal(hh); assert((x >> 8) & 0xff == (x / 0x100) % 0x100) by(bit_vector); }
pub broadcast proof fn hdr6(x: u32) ensures #[trigger] ((x >> 16) as u8) == hw(x) { reveal(hw); assert((x >> 16) as u8 == (x / 0x10000) % 0x100) by(bit_vector); }
pub broadcast proof fn hdr7(x: u32) ensures #[trigger] ((x >> 8) as u8) == hh(x) { reveal(hh); assert((x >> 8) as u8 == (x / 0x100) % 0x100) by(bit_vector); }
pub broadcast proof fn hdr8(x: u32) ensures #[trigger] (x as u8) == hy(x) { reveal(hy); assert(x as u8 == x % 0x100) by(bit_vector); }

pub broadcast proof fn hdr_range(x: u32) ensures 0 <= #[trigger] hw(x) < 256, 0 <= #[trigger] hh(x) < 256, 0 <= #[trigger] hy(x) < 256
{ reveal(hw); reveal(hh); reveal(hy); }
/// Pixel (x, y) of a frame buffer: bit x%32 of word y*11 + x/32
#[verifier::opaque]
pub open spec fn px(fb: Seq<u32>, x: int, y: int) -> bool { bit(fb[y * 11 + x / 32], x % 32) }
/// Positions that exist in the buffer (the last 16 of each row are off screen)
pub open spec fn on_buf(x: int, y: int) -> bool { 0 <= x < 352 && 0 <= y < 536 }
pub broadcast proof fn px_update(fb: Seq<u32>, i: int, v: u32, x: int, y: int)
    requires on_buf(x, y), 0 <= i < fb.len(), fb.len() == 5896
    ensures
        #[trigger] px(fb.update(i, v), x, y) == (if i == y * 11 + x / 32 { bit(v, x % 32) } else { px(fb, x, y) }),
        px(fb, x, y) == bit(fb[y * 11 + x / 32], x % 32),
{ reveal(px); }
/// Two buffers with the same pixels are the same buffer
pub proof fn px_ext(a: Seq<u32>, b: Seq<u32>)
    requires a.len() == 5896, b.len() == 5896, forall|x: int, y: int| on_buf(x, y) ==> #[trigger] px(a, x, y) == px(b, x, y)
    ensures a == b
{
    reveal(px); reveal(bit);
    assert forall|i: int| 0 <= i < 5896 implies a[i] == b[i] by {
        let u = a[i]; let v = b[i];
        assert forall|k: u32| k < 32 implies (#[trigger] (u >> k) & 1 == 1) == ((v >> k) & 1 == 1) by {
            let x = (i % 11) * 32 + k as int; let y = i / 11;
            assert(px(a, x, y) == px(b, x, y));
            assert(x / 32 == i % 11 && x % 32 == k as int);
        }
        words_eq(u, v);
    }
    assert(a =~= b);
}
proof fn words_eq(u: u32, v: u32)
    requires forall|k: u32| k < 32 ==> (#[trigger] (u >> k) & 1 == 1) == ((v >> k) & 1 == 1)
    ensures u == v
{
    assert(((u >> 0u32) & 1u32 == 1u32) == ((v >> 0u32) & 1u32 == 1u32));
    assert(((u >> 1u32) & 1u32 == 1u32) == ((v >> 1u32) & 1u32 == 1u32));
    assert(((u >> 2u32) & 1u32 == 1u32) == ((v >> 2u32) & 1u32 == 1u32));
    assert(((u >> 3u32) & 1u32 == 1u32) == ((v >> 3u32) & 1u32 == 1u32));
    assert(((u >> 4u32) & 1u32 == 1u32) == ((v >> 4u32) & 1u32 == 1u32));
    assert(((u >> 5u32) & 1u32 == 1u32) == ((v >> 5u32) & 1u32 == 1u32));
    assert(((u >> 6u32) & 1u32 == 1u32) == ((v >> 6u32) & 1u32 == 1u32));
    assert(((u >> 7u32) & 1u32 == 1u32) == ((v >> 7u32) & 1u32 == 1u32));
    assert(((u >> 8u32) & 1u32 == 1u32) == ((v >> 8u32) & 1u32 == 1u32));
    assert(((u >> 9u32) & 1u32 == 1u32) == ((v >> 9u32) & 1u32 == 1u32));
    assert(((u >> 10u32) & 1u32 == 1u32) == ((v >> 10u32) & 1u32 == 1u32));
    assert(((u >> 11u32) & 1u32 == 1u32) == ((v >> 11u32) & 1u32 == 1u32));
    assert(((u >> 12u32) & 1u32 == 1u32) == ((v >> 12u32) & 1u32 == 1u32));
    assert(((u >> 13u32) & 1u32 == 1u32) == ((v >> 13u32) & 1u32 == 1u32));
    assert(((u >> 14u32) & 1u32 == 1u32) == ((v >> 14u32) & 1u32 == 1u32));
    assert(((u >> 15u32) & 1u32 == 1u32) == ((v >> 15u32) & 1u32 == 1u32));
    assert(((u >> 16u32) & 1u32 == 1u32) == ((v >> 16u32) & 1u32 == 1u32));
    assert(((u >> 17u32) & 1u32 == 1u32) == ((v >> 17u32) & 1u32 == 1u32));
    assert(((u >> 18u32) & 1u32 == 1u32) == ((v >> 18u32) & 1u32 == 1u32));
    assert(((u >> 19u32) & 1u32 == 1u32) == ((v >> 19u32) & 1u32 == 1u32));
    assert(((u >> 20u32) & 1u32 == 1u32) == ((v >> 20u32) & 1u32 == 1u32));
    assert(((u >> 21u32) & 1u32 == 1u32) == ((v >> 21u32) & 1u32 == 1u32));
    assert(((u >> 22u32) & 1u32 == 1u32) == ((v >> 22u32) & 1u32 == 1u32));
    assert(((u >> 23u32) & 1u32 == 1u32) == ((v >> 23u32) & 1u32 == 1u32));
    assert(((u >> 24u32) & 1u32 == 1u32) == ((v >> 24u32) & 1u32 == 1u32));
    assert(((u >> 25u32) & 1u32 == 1u32) == ((v >> 25u32) & 1u32 == 1u32));
    assert(((u >> 26u32) & 1u32 == 1u32) == ((v >> 26u32) & 1u32 == 1u32));
    assert(((u >> 27u32) & 1u32 == 1u32) == ((v >> 27u32) & 1u32 == 1u32));
    assert(((u >> 28u32) & 1u32 == 1u32) == ((v >> 28u32) & 1u32 == 1u32));
    assert(((u >> 29u32) & 1u32 == 1u32) == ((v >> 29u32) & 1u32 == 1u32));
    assert(((u >> 30u32) & 1u32 == 1u32) == ((v >> 30u32) & 1u32 == 1u32));
    assert(((u >> 31u32) & 1u32 == 1u32) == ((v >> 31u32) & 1u32 == 1u32));
    assert(u == v) by(bit_vector) requires
        ((u >> 0u32) & 1u32 == 1u32) == ((v >> 0u32) & 1u32 == 1u32),
        ((u >> 1u32) & 1u32 == 1u32) == ((v >> 1u32) & 1u32 == 1u32),
        ((u >> 2u32) & 1u32 == 1u32) == ((v >> 2u32) & 1u32 == 1u32),
        ((u >> 3u32) & 1u32 == 1u32) == ((v >> 3u32) & 1u32 == 1u32),
        ((u >> 4u32) & 1u32 == 1u32) == ((v >> 4u32) & 1u32 == 1u32),
        ((u >> 5u32) & 1u32 == 1u32) == ((v >> 5u32) & 1u32 == 1u32),
        ((u >> 6u32) & 1u32 == 1u32) == ((v >> 6u32) & 1u32 == 1u32),
        ((u >> 7u32) & 1u32 == 1u32) == ((v >> 7u32) & 1u32 == 1u32),
        ((u >> 8u32) & 1u32 == 1u32) == ((v >> 8u32) & 1u32 == 1u32),
        ((u >> 9u32) & 1u32 == 1u32) == ((v >> 9u32) & 1u32 == 1u32),
        ((u >> 10u32) & 1u32 == 1u32) == ((v >> 10u32) & 1u32 == 1u32),
        ((u >> 11u32) & 1u32 == 1u32) == ((v >> 11u32) & 1u32 == 1u32),
        ((u >> 12u32) & 1u32 == 1u32) == ((v >> 12u32) & 1u32 == 1u32),
        ((u >> 13u32) & 1u32 == 1u32) == ((v >> 13u32) & 1u32 == 1u32),
        ((u >> 14u32) & 1u32 == 1u32) == ((v >> 14u32) & 1u32 == 1u32),
        ((u >> 15u32) & 1u32 == 1u32) == ((v >> 15u32) & 1u32 == 1u32),
        ((u >> 16u32) & 1u32 == 1u32) == ((v >> 16u32) & 1u32 == 1u32),
        ((u >> 17u32) & 1u32 == 1u32) == ((v >> 17u32) & 1u32 == 1u32),
        ((u >> 18u32) & 1u32 == 1u32) == ((v >> 18u32) & 1u32 == 1u32),
        ((u >> 19u32) & 1u32 == 1u32) == ((v >> 19u32) & 1u32 == 1u32),
        ((u >> 20u32) & 1u32 == 1u32) == ((v >> 20u32) & 1u32 == 1u32),
        ((u >> 21u32) & 1u32 == 1u32) == ((v >> 21u32) & 1u32 == 1u32),
        ((u >> 22u32) & 1u32 == 1u32) == ((v >> 22u32) & 1u32 == 1u32),
        ((u >> 23u32) & 1u32 == 1u32) == ((v >> 23u32) & 1u32 == 1u32),
        ((u >> 24u32) & 1u32 == 1u32) == ((v >> 24u32) & 1u32 == 1u32),
        ((u >> 25u32) & 1u32 == 1u32) == ((v >> 25u32) & 1u32 == 1u32),
        ((u >> 26u32) & 1u32 == 1u32) == ((v >> 26u32) & 1u32 == 1u32),
        ((u >> 27u32) & 1u32 == 1u32) == ((v >> 27u32) & 1u32 == 1u32),
        ((u >> 28u32) & 1u32 == 1u32) == ((v >> 28u32) & 1u32 == 1u32),
        ((u >> 29u32) & 1u32 == 1u32) == ((v >> 29u32) & 1u32 == 1u32),
        ((u >> 30u32) & 1u32 == 1u32) == ((v >> 30u32) & 1u32 == 1u32),
        ((u >> 31u32) & 1u32 == 1u32) == ((v >> 31u32) & 1u32 == 1u32);
}
pub broadcast group group_bits {
    bit_range, bit_xor, bit_or, bit_and, bit_not, bit_shl, bit_shl32, bit_shr, bit_shr32, bit_ones, bit_zero, usize_shr5, usize_and1f, px_update, group_bits64 }
pub broadcast group group_header { hdr1, hdr2, hdr3, hdr4, hdr5, hdr6, hdr7, hdr8 }
}
pub use bits::*;

// ---------------------------------------------------------------- UTF-8 slicing
pub mod strs {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
pub closed spec fn ulen(s: Seq<char>) -> int { encode_utf8(s).len() as int }
pub open spec fn clen(c: char) -> int { let x = c as u32; if x < 0x80 { 1 } else if x < 0x800 { 2 } else if x < 0x10000 { 3 } else { 4 } }
pub proof fn enc_len(c: char) ensures encode_scalar(c as u32).len() == clen(c) { }

pub broadcast proof fn ulen_step(s: Seq<char>, k: int)
  requires 0 <= k < s.len()
  ensures #[trigger] ulen(s.take(k+1)) == ulen(s.take(k)) + clen(s[k])
{
  assert(s.take(k+1) == s.take(k).push(s[k]));
  assert(s.take(k+1) == s.take(k) + seq![s[k]]);
  encode_utf8_concat(s.take(k), seq![s[k]]);
  assert(seq![s[k]].drop_first() == Seq::<char>::empty());
  assert(encode_utf8(seq![s[k]].drop_first()) == Seq::<u8>::empty());
  assert(encode_utf8(seq![s[k]]) == encode_scalar(s[k] as u32) + encode_utf8(seq![s[k]].drop_first()));
  enc_len(s[k]);
}
pub broadcast proof fn ulen_0(s: Seq<char>)
  ensures #[trigger] ulen(s.take(0)) == 0
{ }
pub broadcast proof fn ulen_full(s: Seq<char>)
  ensures (#[trigger] encode_utf8(s).len()) == ulen(s), s.len() <= ulen(s) <= 4 * s.len(), 
     s.len() == 0 <==> encode_utf8(s).len() == 0,
  decreases s.len()
{ assert(s.take(s.len() as int) == s); if s.len() > 0 { let t = s.drop_last(); ulen_full(t); assert(t == s.take(s.len()-1)); ulen_step(s, s.len()-1); } }

proof fn bnd(s: Seq<char>, k: int)
  requires 0 <= k <= s.len()
  ensures is_char_boundary(encode_utf8(s), ulen(s.take(k)))
  decreases k
{
   encode_utf8_valid_utf8(s);
   if k > 0 {
     assert(s.take(k)+s.skip(k) == s);
     encode_utf8_concat(s.take(k), s.skip(k));
     encode_utf8_first_scalar(s);
     let t = s.drop_first();
     bnd(t, k-1);
     assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(t));
     let b = encode_utf8(s);
     assert(pop_first_scalar(b) == encode_utf8(t));
     assert(s.take(k).drop_first() == t.take(k-1));
     assert(encode_utf8(s.take(k)) == encode_scalar(s.take(k)[0] as u32) + encode_utf8(s.take(k).drop_first()));
     assert(ulen(s.take(k)) == length_of_first_scalar(b) + ulen(t.take(k-1)));
     enc_len(s[0]);
     assert(is_char_boundary(pop_first_scalar(b), ulen(s.take(k)) - length_of_first_scalar(b)));
     assert(is_char_boundary(b, ulen(s.take(k))));
   }
}
pub broadcast proof fn boundary(s: Seq<char>, k: int)
  requires 0 <= k <= s.len()
  ensures #![trigger encode_utf8(s), ulen(s.take(k))] is_char_boundary(encode_utf8(s), ulen(s.take(k))), 
    0 <= ulen(s.take(k)) <= encode_utf8(s).len(),
    encode_utf8(s).subrange(ulen(s.take(k)), encode_utf8(s).len() as int) == encode_utf8(s.skip(k)),
{
   bnd(s, k);
   assert(s.take(k)+s.skip(k) == s);
   encode_utf8_concat(s.take(k), s.skip(k));
}
pub broadcast proof fn boundary_0(s: Seq<char>)
  ensures is_char_boundary(#[trigger] encode_utf8(s), 0), encode_utf8(s).subrange(0, encode_utf8(s).len() as int) == encode_utf8(s),
{ boundary(s, 0); ulen_0(s); assert(encode_utf8(s).subrange(0, encode_utf8(s).len() as int) =~= encode_utf8(s)); }
pub broadcast proof fn boundary_ascii(s: Seq<char>)
  requires s.len() > 0, (s[0] as u32) < 128
  ensures #![trigger is_char_boundary(encode_utf8(s), 1)] #![trigger encode_utf8(s).subrange(1, encode_utf8(s).len() as int)] is_char_boundary(encode_utf8(s), 1), encode_utf8(s).len() >= 1,
    encode_utf8(s).subrange(1, encode_utf8(s).len() as int) == encode_utf8(s.skip(1)),
{
  boundary(s,1); ulen_step(s,0); ulen_0(s); 
}
pub broadcast proof fn boundary_end(s: Seq<char>)
  ensures #[trigger] is_char_boundary(encode_utf8(s), encode_utf8(s).len() as int)
{
   encode_utf8_valid_utf8(s);
   is_char_boundary_start_end_of_seq(encode_utf8(s));
}
pub broadcast proof fn str_inj(s: &str)
  ensures #![trigger s@] decode_utf8(s.spec_bytes()) == s@
{ encode_utf8_decode_utf8(s@); }
pub broadcast proof fn sub_inj(s: Seq<char>)
  ensures decode_utf8(#[trigger] encode_utf8(s)) == s
{ encode_utf8_decode_utf8(s); }
pub broadcast axiom fn str_len_bound(s: &str)
  ensures (#[trigger] s.spec_bytes()).len() <= isize::MAX;
pub broadcast group group_str { ulen_step, ulen_0, ulen_full, boundary, boundary_0, boundary_ascii, boundary_end, str_inj, sub_inj, str_len_bound }
}
pub use strs::*;

// ---------------------------------------------------------------- assumed library behaviour
pub mod libspec {
use vstd::prelude::*;
use super::bits::*;
use super::strs::*;
use core::str::CharIndices;
use vstd::utf8::*;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCharIndices<'a>(CharIndices<'a>);
/// the string under iteration, and how many chars have been taken from it
pub uninterp spec fn ci_src(c: CharIndices<'_>) -> Seq<char>;
pub uninterp spec fn ci_pos(c: CharIndices<'_>) -> int;
pub assume_specification [str::char_indices] (s: &str) -> (r: CharIndices<'_>)
    ensures ci_src(r) == s@, ci_pos(r) == 0;
pub assume_specification<'a> [<CharIndices<'a> as Iterator>::next] (it: &mut CharIndices<'a>) -> (r: Option<(usize, char)>)
    ensures
        ci_src(*final(it)) == ci_src(*old(it)),
        ci_pos(*old(it)) >= ci_src(*old(it)).len() ==> r is None && ci_pos(*final(it)) == ci_pos(*old(it)),
        ci_pos(*old(it)) < ci_src(*old(it)).len() ==> r is Some && ci_pos(*final(it)) == ci_pos(*old(it)) + 1
            && r.unwrap().0 == ulen(ci_src(*old(it)).take(ci_pos(*old(it)))) && r.unwrap().1 == ci_src(*old(it))[ci_pos(*old(it))];

/// &s[a..], &s[..b], &s[a..b] on a str: the cuts must be at char boundaries
#[verifier::external_body]
pub fn str_from(s: &str, a: usize) -> (r: &str)
    requires is_char_boundary(encode_utf8(s@), a as int), a <= encode_utf8(s@).len()
    ensures encode_utf8(r@) == encode_utf8(s@).subrange(a as int, encode_utf8(s@).len() as int)
{ &s[a..] }
#[verifier::external_body]
pub fn str_to(s: &str, b: usize) -> (r: &str)
    requires is_char_boundary(encode_utf8(s@), b as int), b <= encode_utf8(s@).len()
    ensures encode_utf8(r@) == encode_utf8(s@).subrange(0, b as int)
{ &s[..b] }

/// Iterator::nth, written out as the standard library documents it, for CharIndices
pub fn it_nth<'a>(it: CharIndices<'a>, n: usize) -> (r: Option<(usize, char)>)
    requires ci_pos(it) == 0
    ensures
        n >= ci_src(it).len() ==> r is None,
        n < ci_src(it).len() ==> r is Some && r.unwrap().0 == ulen(ci_src(it).take(n as int)) && r.unwrap().1 == ci_src(it)[n as int],
{
    let ghost src = ci_src(it);
    let mut it = it;
    let mut k = n;
    #[verifier::loop_isolation(false)]
    loop
        invariant 0 <= ci_pos(it) <= src.len(), ci_src(it) == src, ci_pos(it) + k == n
        decreases k
    {
        match it.next() {
            None => { return None; }
            Some(x) => { if k == 0 { return Some(x); } }
        }
        k = k - 1;
    }
}

/// rotate_left is (x << n) | (x >> (32 - n)) for 0 < n < 32
pub open spec fn rotl(x: u32, n: u32) -> u32 { (x << n) | (x >> ((32 - n) as u32)) }
pub assume_specification [u32::rotate_left] (x: u32, n: u32) -> (r: u32)
    ensures 0 < n < 32 ==> r == rotl(x, n);

pub open spec fn sorted(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// <[u32]>::binary_search
#[verifier::external_body]
pub fn bsearch(s: &[u32], k: &u32) -> (r: core::result::Result<usize, usize>)
    ensures
        r is Ok ==> r.unwrap() < s@.len() && s@[r.unwrap() as int] == *k,
        r is Err && sorted(s@) ==> forall|i: int| 0 <= i < s@.len() ==> s@[i] != *k,
{ s.binary_search(k) }

/// s.strip_prefix(c)
pub fn strip_char(s: &str, c: char) -> (r: Option<&str>)
    ensures
        s@.len() > 0 && s@[0] == c ==> r is Some && r->Some_0@ == s@.subrange(1, s@.len() as int),
        !(s@.len() > 0 && s@[0] == c) ==> r is None,
{
    broadcast use super::strs::group_str;
    proof {
        if s@.len() > 0 { ulen_step(s@, 0); ulen_0(s@); boundary(s@, 1); assert(s@.skip(1) =~= s@.subrange(1, s@.len() as int)); }
    }
    match s.chars().next() {
        Some(x) if x == c => Some(str_from(s, c.len_utf8())),
        _ => None,
    }
}
/// the bounds check of s.as_bytes()[0]
pub fn chk_nonempty(s: &str)
    requires s@.len() > 0
{ }
/// the bounds check of x[a..b] for a frame buffer x
pub fn chk_range(a: usize, b: usize)
    requires a <= b <= 5896
{ }
/// u32::to_be_bytes
pub fn be_bytes(x: u32) -> (r: [u8; 4])
    ensures
        r[0] as u32 == (x >> 24),
        r[1] as u32 == ((x >> 16) & 0xff),
        r[2] as u32 == ((x >> 8) & 0xff),
        r[3] as u32 == (x & 0xff),
{
    assert((x >> 24) < 256u32 && ((x >> 16) & 0xff) < 256u32 && ((x >> 8) & 0xff) < 256u32 && (x & 0xff) < 256u32) by (bit_vector);
    [(x >> 24) as u8, ((x >> 16) & 0xff) as u8, ((x >> 8) & 0xff) as u8, (x & 0xff) as u8]
}
/// a panicking macro: must be unreachable
#[verifier::external_body]
pub fn vpanic() -> !
    requires false
{ panic!() }
}
pub use libspec::*;
pub use strs::*;

// ---------------------------------------------------------------- hashes and glyph tables
pub mod tabspec {
use vstd::prelude::*;
use super::bits::*;
use super::strs::*;
use super::libspec::*;

// --- hash
#[verifier::opaque]
pub open spec fn m3_mix(h: u32, k: u32) -> u32 {
    let k1 = k.wrapping_mul(0xcc9e2d51u32);
    let k2 = rotl(k1, 15);
    let k3 = k2.wrapping_mul(0x1b873593u32);
    rotl(h ^ k3, 13).wrapping_mul(5u32).wrapping_add(0xe6546b64u32)
}
pub open spec fn m3_chars(s: Seq<char>, seed: u32) -> u32
    decreases s.len()
{ if s.len() == 0 { seed } else { m3_mix(m3_chars(s.drop_last(), seed), s.last() as u32) } }
pub open spec fn m3_fin(h: u32) -> u32 {
    let a = h ^ (h >> 16u32);
    let b = a.wrapping_mul(0x85ebca6bu32);
    let c = b ^ (b >> 13u32);
    let d = c.wrapping_mul(0xc2b2ae35u32);
    d ^ (d >> 16u32)
}
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
/// Murmur3 of a whole cluster: its chars as 32-bit blocks, finalized with its UTF-8 length
#[verifier::opaque]
pub open spec fn m3_cluster(s: Seq<char>, seed: u32) -> u32 { m3_fin(m3_chars(s, seed) ^ (ulen(s) as u32)) }
pub broadcast proof fn m3_step(s: Seq<char>, k: int, seed: u32)
    requires 0 <= k < s.len()
    ensures #[trigger] m3_chars(s.take(k + 1), seed) == m3_mix(m3_chars(s.take(k), seed), s[k] as u32)
{ let t = s.take(k + 1); assert(t.drop_last() == s.take(k)); assert(t.last() == s[k]); }
pub broadcast group group_m3 { m3_step, m3_0 }
pub broadcast proof fn m3_0(s: Seq<char>, seed: u32)
    ensures #[trigger] m3_chars(s.take(0), seed) == seed
{ }

pub open spec fn m3_words(s: Seq<u32>, seed: u32) -> u32
    decreases s.len()
{ if s.len() == 0 { seed } else { m3_mix(m3_words(s.drop_last(), seed), s.last()) } }
pub broadcast proof fn m3w_step(s: Seq<u32>, k: int, seed: u32)
    requires 0 <= k < s.len()
    ensures #[trigger] m3_words(s.take(k + 1), seed) == m3_mix(m3_words(s.take(k), seed), s[k])
{ let t = s.take(k + 1); assert(t.drop_last() == s.take(k)); assert(t.last() == s[k]); }
pub broadcast proof fn m3w_0(s: Seq<u32>, seed: u32)
    ensures #[trigger] m3_words(s.take(0), seed) == seed
{ }
pub broadcast proof fn m3w_all(s: Seq<u32>, seed: u32)
    ensures #[trigger] m3_words(s.take(s.len() as int), seed) == m3_words(s, seed)
{ assert(s.take(s.len() as int) == s); }
pub broadcast group group_m3w { m3w_step, m3w_0, m3w_all }


// --- glyph tables
/// (offset, number of chars) of the glyph found for the first `limit` chars of s, if any
#[verifier::opaque]
pub open spec fn find(hs: Seq<u32>, os: Seq<usize>, seed: u32, s: Seq<char>, limit: int) -> Option<(int, int)> {
    let n = imin(limit, s.len() as int);
    let h = m3_cluster(s.take(n), seed);
    if exists|i: int| 0 <= i < hs.len() && hs[i] == h { Some((os[choose|i: int| 0 <= i < hs.len() && hs[i] == h] as int, n)) } else { None }
}
pub broadcast proof fn find_full(hs: Seq<u32>, os: Seq<usize>, seed: u32, s: Seq<char>, limit: int)
    requires s.len() <= limit
    ensures #[trigger] find(hs, os, seed, s, limit) == find(hs, os, seed, s, s.len() as int)
{ reveal(find); }
/// A well-formed glyph record starts at o
pub open spec fn rec_ok(d: Seq<u32>, o: int, maxh: int) -> bool {
    0 <= o < d.len() && d[o] < 0x1000000 && 1 <= hw(d[o]) <= 32 && 1 <= hh(d[o]) && hh(d[o]) + hy(d[o]) <= maxh && hh(d[o]) * hw(d[o]) <= 1024
        && o + 1 + (hh(d[o]) * hw(d[o]) + 31) / 32 <= d.len()
}
#[verifier::opaque]
pub open spec fn block_ok(hs: Seq<u32>, os: Seq<usize>, d: Seq<u32>, maxh: int) -> bool {
    sorted(hs) && hs.len() == os.len() && forall|i: int| 0 <= i < os.len() ==> rec_ok(d, #[trigger] os[i] as int, maxh)
}
pub open spec fn found_ok(f: Option<(int, int)>, s: Seq<char>, d: Seq<u32>, maxh: int) -> bool {
    f is Some ==> 1 <= f.unwrap().1 <= s.len() && rec_ok(d, f.unwrap().0, maxh)
}
pub broadcast proof fn find_ok(hs: Seq<u32>, os: Seq<usize>, d: Seq<u32>, maxh: int, seed: u32, s: Seq<char>, limit: int)
    requires #[trigger] block_ok(hs, os, d, maxh), limit >= 1, s.len() >= 1
    ensures found_ok(#[trigger] find(hs, os, seed, s, limit), s, d, maxh)
{ reveal(block_ok); reveal(find); }
/// In a sorted table the entry found is the one with that hash
pub broadcast proof fn find_is(hs: Seq<u32>, os: Seq<usize>, d: Seq<u32>, maxh: int, seed: u32, s: Seq<char>, limit: int)
    requires #[trigger] block_ok(hs, os, d, maxh)
    ensures
        ({ let f = #[trigger] find(hs, os, seed, s, limit); let n = imin(limit, s.len() as int); let h = m3_cluster(s.take(n), seed);
          sorted(hs) && hs.len() == os.len()
          && (forall|i: int| 0 <= i < hs.len() && #[trigger] hs[i] == h ==> f == Some((os[i] as int, n)))
          && ((forall|i: int| 0 <= i < hs.len() ==> #[trigger] hs[i] != h) ==> f is None) })
{ reveal(block_ok); reveal(find); }
pub open spec fn fmatch(r: Option<(usize, usize)>, f: Option<(int, int)>, s: Seq<char>) -> bool {
    match f { None => r is None, Some((o, n)) => r is Some && r.unwrap().0 == o && r.unwrap().1 == ulen(s.take(n)) }
}
/// Pixel in column j, row r of the glyph record at offset o of d: rows are packed most
/// significant bit first, each row from its rightmost column to its leftmost
#[verifier::opaque]
pub open spec fn gpix_at(d: Seq<u32>, o: int, j: int, r: int) -> bool {
    let k = r * hw(d[o]) + (hw(d[o]) - 1 - j);
    bit(d[o + 1 + k / 32], 31 - k % 32)
}
}
pub use tabspec::*;
/*@@PART END@@*/
// ---------------------------------------------------------------- what painting means
pub mod model0 {
use vstd::prelude::*;
use super::bits::*;
use super::strs::*;
use super::libspec::*;
use super::tabspec::*;
use crate::cliprect::ClipRect;
use crate::cursor::Cursor;
use crate::pt::Pt;
use crate::fonts::{GlyphSet, GlyphData};
use crate::glyphstyle::GlyphStyle;
use crate::framebuffer::*;

// --- geometry
/// A rectangle painting accepts: on the screen and at least one pixel wide
pub open spec fn clip_wide(k: ClipRect) -> bool { k.max.y <= 536 && k.max.x <= 336 && k.min.x < k.max.x }
/// A rectangle clear_region accepts: also at least one pixel high
pub open spec fn clip_ok(k: ClipRect) -> bool { clip_wide(k) && k.min.y < k.max.y }
pub open spec fn in_clip(k: ClipRect, x: int, y: int) -> bool { k.min.x <= x < k.max.x && k.min.y <= y < k.max.y }
pub open spec fn sat(a: int) -> usize { if a > usize::MAX as int { usize::MAX } else { a as usize } }

pub proof fn stripes()
    ensures forall|i: int| bit(0xffff0000u32, i) == (16 <= i < 32), !0xffffu32 == 0xffff0000u32
{
    reveal(bit);
    assert(!0xffffu32 == 0xffff0000u32) by(bit_vector);
    assert forall|i: int| bit(0xffff0000u32, i) == (16 <= i < 32) by {
        if 0 <= i < 32 { let k = i as u32; assert(((0xffff0000u32 >> k) & 1u32 == 1u32) == (16 <= k)) by(bit_vector) requires k < 32; }
    }
}
pub open spec fn style_of(n: usize) -> GlyphStyle { if n == 0 { GlyphStyle::Small } else if n == 2 { GlyphStyle::Bold } else { GlyphStyle::Regular } }
pub open spec fn style_num(g: GlyphStyle) -> usize { match g { GlyphStyle::Small => 0, GlyphStyle::Regular => 1, GlyphStyle::Bold => 2 } }

impl vstd::std_specs::convert::FromSpecImpl<usize> for GlyphStyle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(n: usize) -> GlyphStyle { style_of(n) }
}
impl vstd::std_specs::convert::IntoSpecImpl<usize> for GlyphStyle {
    open spec fn obeys_into_spec() -> bool { true }
    open spec fn into_spec(self) -> usize { style_num(self) }
}

}
pub use model0::*;
/*@@FONTS@@*/
pub mod model {
use vstd::prelude::*;
use super::bits::*;
use super::strs::*;
use super::libspec::*;
use super::tabspec::*;
use super::model0::*;
use super::fontspec::*;
use crate::cliprect::ClipRect;
use crate::cursor::Cursor;
use crate::pt::Pt;
use crate::fonts::{GlyphSet, GlyphData, NoGlyphErr};
use crate::glyphstyle::GlyphStyle;
use crate::framebuffer::*;

pub open spec fn gmatch(r: core::result::Result<(GlyphData, usize), NoGlyphErr>, g: GlyphSet, f: Option<(int, int)>, s: Seq<char>) -> bool {
    match f { None => r is Err, Some((o, n)) => r is Ok && gd_is(r.unwrap().0, g, o) && r.unwrap().1 == ulen(s.take(n)) }
}
pub open spec fn gw(g: GlyphSet, o: int) -> int { hw(data(g)[o]) }
pub open spec fn gh(g: GlyphSet, o: int) -> int { hh(data(g)[o]) }
pub open spec fn gy(g: GlyphSet, o: int) -> int { hy(data(g)[o]) }
/// Pixel in column j, row r of the glyph at offset o
pub open spec fn gpix(g: GlyphSet, o: int, j: int, r: int) -> bool { gpix_at(data(g), o, j, r) }
/// The same, with the row's first bit located first
pub broadcast proof fn gpix_is(g: GlyphSet, o: int, j: int, r: int)
    requires 1 <= gw(g, o) <= 32, 0 <= j < gw(g, o), 0 <= r
    ensures #[trigger] gpix_at(data(g), o, j, r) == ({
        let w = gw(g, o); let q = r * w; let a = q % 32; let z = q / 32;
        if a + w - 1 - j < 32 { bit(data(g)[o + 1 + z], 32 - (a + w - j)) } else { bit(data(g)[o + 2 + z], 64 - (a + w - j)) } })
{
    reveal(gpix_at);
    let w = gw(g, o); let q = r * w; let k = q + (w - 1 - j);
    assert(q >= 0) by(nonlinear_arith) requires q == r * w, r >= 0, w >= 1;
    if q % 32 + w - 1 - j < 32 { assert(k / 32 == q / 32); assert(k % 32 == q % 32 + w - 1 - j); }
    else { assert(k / 32 == q / 32 + 1); assert(k % 32 == q % 32 + w - 1 - j - 32); }
}

// --- layout
/// A glyph on the screen, before clipping
pub struct Place { pub set: GlyphSet, pub off: int, pub x: int, pub y: int }
/// Does painting p inside clip flip pixel (x, y)?
pub open spec fn flips(p: Place, k: ClipRect, x: int, y: int) -> bool {
    in_clip(k, x, y) && p.x <= x < p.x + gw(p.set, p.off) && p.y <= y < p.y + gh(p.set, p.off) && gpix(p.set, p.off, x - p.x, y - p.y)
}
pub open spec fn next_line(k: ClipRect, c: Cursor) -> Cursor {
    let lh = if c.line_height < 24 { 24 } else { c.line_height as int };
    Cursor { pt: Pt { x: k.min.x, y: sat(c.pt.y + lh + 1) }, line_height: 0 }
}
/// What one attempt to paint the cluster at the front of s with one font does
pub enum Try {
    NoGlyph,              // the font has no glyph for it
    NoRoom(Cursor),       // there is no room in the clip rect; where the cursor is left
    Put(Place, Cursor, int), // painted; where the cursor goes; chars used
}
pub open spec fn try_glyph(k: ClipRect, c: Cursor, s: Seq<char>, g: GlyphSet) -> Try {
    if !clip_wide(k) { Try::NoRoom(c) } else {
        match lookup(g, s) {
            None => Try::NoGlyph,
            Some((o, n)) => {
                let w = gw(g, o);
                if k.min.x + 1 + w > k.max.x { Try::NoRoom(c) } else {
                    let c1 = if c.pt.x < k.min.x { Cursor { pt: Pt { x: k.min.x, y: c.pt.y }, line_height: c.line_height } } else { c };
                    let c2 = if c1.pt.x + w + 3 >= k.max.x { next_line(k, c1) } else { c1 };
                    let y = c2.pt.y + gy(g, o);
                    if y > k.max.y { Try::NoRoom(c2) } else {
                        let lh = if c2.line_height < max_height(g) { max_height(g) as usize } else { c2.line_height };
                        Try::Put(Place { set: g, off: o, x: c2.pt.x + 1, y }, Cursor { pt: Pt { x: sat(c2.pt.x + w + 3), y: c2.pt.y }, line_height: lh }, n)
                    }
                }
            }
        }
    }
}
pub open spec fn latin(st: GlyphStyle) -> GlyphSet { match st { GlyphStyle::Small => GlyphSet::Small, GlyphStyle::Regular => GlyphSet::Regular, GlyphStyle::Bold => GlyphSet::Bold } }
/// What painting does with the front of s: an optional glyph, the new cursor, chars used (0: no room, stop)
pub struct Step { pub put: Option<Place>, pub c: Cursor, pub n: int }
pub open spec fn of_try(t: Try) -> Step {
    match t { Try::Put(p, c, n) => Step { put: Some(p), c, n }, Try::NoRoom(c) => Step { put: None, c, n: 0 }, Try::NoGlyph => arbitrary() }
}
pub open spec fn step(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>) -> Step {
    if s[0] == '\n' { Step { put: None, c: next_line(k, c), n: 1 } }
    else if !(try_glyph(k, c, s, GlyphSet::Emoji) is NoGlyph) { of_try(try_glyph(k, c, s, GlyphSet::Emoji)) }
    else if !(try_glyph(k, c, s, latin(st)) is NoGlyph) { of_try(try_glyph(k, c, s, latin(st))) }
    else if !(try_glyph(k, c, s, GlyphSet::Hanzi) is NoGlyph) { of_try(try_glyph(k, c, s, GlyphSet::Hanzi)) }
    else {
        match try_glyph(k, c, seq!['\u{FFFD}'], latin(st)) {
            Try::Put(p, c1, n) => Step { put: Some(p), c: c1, n: 1 },
            Try::NoRoom(c1) => Step { put: None, c: c1, n: 1 },
            Try::NoGlyph => Step { put: None, c, n: 0 },
        }
    }
}
/// Does painting s flip pixel (x, y)?
#[verifier::opaque]
pub open spec fn painted(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>, x: int, y: int) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else {
        let t = step(k, st, c, s);
        if !(0 < t.n <= s.len()) { false }
        else { (t.put is Some && flips(t.put.unwrap(), k, x, y)) != painted(k, st, t.c, s.skip(t.n), x, y) }
    }
}
/// Where the cursor ends, and whether all of s was used
#[verifier::opaque]
pub open spec fn ends(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>) -> (Cursor, bool)
    decreases s.len()
{
    if s.len() == 0 { (c, true) } else {
        let t = step(k, st, c, s);
        if !(0 < t.n <= s.len()) { (t.c, false) } else { ends(k, st, t.c, s.skip(t.n)) }
    }
}
pub open spec fn put_of(t: Try) -> Place { match t { Try::Put(p, c, n) => p, _ => arbitrary() } }
/// Wide enough for any glyph
pub open spec fn wide36(k: ClipRect) -> bool { k.min.x + 35 < k.max.x }
/// Nothing of s can be painted from c, now or later
pub open spec fn stuck(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>) -> bool {
    s.len() > 0 && step(k, st, c, s).n <= 0 && (wide36(k) ==> step(k, st, c, s).c == c)
}
pub broadcast proof fn row_span(r: int, w: int, h: int)
    requires 0 <= r < h, 0 <= w
    ensures (#[trigger] (r * w)) + w <= #[trigger] (h * w), 0 <= r * w
{ assert((r + 1) * w <= h * w) by(nonlinear_arith) requires r + 1 <= h, 0 <= w; assert((r + 1) * w == r * w + w) by(nonlinear_arith); assert(0 <= r * w) by(nonlinear_arith) requires 0 <= r, 0 <= w; }

// The lemmas below are triggered by what the code does: an attempt to paint the front of s
// (try_glyph with the emoji font, always the first) or a new line.
pub broadcast proof fn stuck_stays(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>, c2: Cursor)
    requires s.len() > 0, step(k, st, c, s).n <= 0, c2 == step(k, st, c, s).c
    ensures #![trigger try_glyph(k, c, s, GlyphSet::Emoji), stuck(k, st, c2, s)] stuck(k, st, c2, s)
{
    broadcast use lookup_ok;
}
pub broadcast proof fn stuck_blank(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>, c2: Cursor, x: int, y: int)
    requires s.len() > 0, step(k, st, c, s).n <= 0, c2 == step(k, st, c, s).c
    ensures #![trigger try_glyph(k, c, s, GlyphSet::Emoji), painted(k, st, c2, s, x, y)] painted(k, st, c2, s, x, y) == false
{ stuck_stays(k, st, c, s, c2); reveal_with_fuel(painted, 2); }
pub broadcast proof fn stuck_ends(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>, c2: Cursor)
    requires s.len() > 0, step(k, st, c, s).n <= 0, c2 == step(k, st, c, s).c
    ensures #![trigger try_glyph(k, c, s, GlyphSet::Emoji), ends(k, st, c2, s)] ends(k, st, c2, s).1 == false, wide36(k) ==> ends(k, st, c2, s) == (c2, false)
{ stuck_stays(k, st, c, s, c2); reveal_with_fuel(ends, 2); }
pub broadcast proof fn stuck_end(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>)
    requires stuck(k, st, c, s)
    ensures #![trigger stuck(k, st, c, s), ends(k, st, c, s)] ends(k, st, c, s).1 == false, wide36(k) ==> ends(k, st, c, s) == (c, false)
{ reveal_with_fuel(ends, 2); }
pub broadcast proof fn painted_empty(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>, x: int, y: int)
    requires s.len() == 0
    ensures #[trigger] painted(k, st, c, s, x, y) == false
{ reveal(painted); }
pub broadcast proof fn painted_step(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>, x: int, y: int)
    requires s.len() > 0
    ensures
        #![trigger painted(k, st, c, s, x, y), try_glyph(k, c, s, GlyphSet::Emoji)]
        #![trigger painted(k, st, c, s, x, y), next_line(k, c)]
        ({ let t = step(k, st, c, s);
        painted(k, st, c, s, x, y) == (if !(0 < t.n <= s.len()) { false } else { (t.put is Some && flips(t.put.unwrap(), k, x, y)) != painted(k, st, t.c, s.skip(t.n), x, y) }) })
{ reveal_with_fuel(painted, 2); }
pub broadcast proof fn ends_empty(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>)
    requires s.len() == 0
    ensures #[trigger] ends(k, st, c, s) == (c, true)
{ reveal(ends); }
pub broadcast proof fn ends_step(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>)
    requires s.len() > 0
    ensures
        #![trigger ends(k, st, c, s), try_glyph(k, c, s, GlyphSet::Emoji)]
        #![trigger ends(k, st, c, s), next_line(k, c)]
        ({ let t = step(k, st, c, s);
        ends(k, st, c, s) == (if !(0 < t.n <= s.len()) { (t.c, false) } else { ends(k, st, t.c, s.skip(t.n)) }) })
{ reveal_with_fuel(ends, 2); }
pub broadcast group group_paint { stuck_stays, stuck_blank, stuck_ends, stuck_end, painted_empty, painted_step, ends_empty, ends_step }
}
pub use model::*;
// ---------------------------------------------------------------- the demonstration screens
pub mod demospec {
use vstd::prelude::*;
use super::bits::*;
use super::libspec::*;
use super::model0::*;
use super::fontspec::*;
use super::model::*;
use crate::cliprect::ClipRect;
use crate::cursor::Cursor;
use crate::pt::Pt;
use crate::fonts::GlyphSet;
use crate::glyphstyle::GlyphStyle;

pub open spec fn padded() -> ClipRect { ClipRect { min: Pt { x: 6, y: 6 }, max: Pt { x: 330, y: 530 } } }
pub open spec fn top() -> Cursor { Cursor { pt: Pt { x: 6, y: 6 }, line_height: 0 } }
/// Where painting s inside the padded screen from c leaves the cursor
pub open spec fn after(st: GlyphStyle, c: Cursor, s: Seq<char>) -> Cursor { ends(padded(), st, c, s).0 }
pub open spec fn inked(st: GlyphStyle, c: Cursor, s: Seq<char>, x: int, y: int) -> bool { painted(padded(), st, c, s, x, y) }

pub open spec fn hello1() -> Seq<char> { "Hello, world!\n"@ }
pub open spec fn hello2() -> Seq<char> { "Hello, \u{1F638}!\n"@ }
/// The pixels short_greeting inks
pub open spec fn greeting(x: int, y: int) -> bool {
    let st = GlyphStyle::Regular;
    inked(st, top(), hello1(), x, y) != inked(st, after(st, top(), hello1()), hello2(), x, y)
}
pub open spec fn poem() -> Seq<char> { "\u{9E45}\u{3001}\u{9E45}\u{3001}\u{9E45}\u{FF0C}\n\u{66F2}\u{9879}\u{5411}\u{5929}\u{6B4C}\u{3002}\n\u{767D}\u{6BDB}\u{6D6E}\u{7EFF}\u{6C34}\u{FF0C}\n\u{7EA2}\u{638C}\u{62E8}\u{6E05}\u{6CE2}\n"@ }
pub open spec fn note() -> Seq<char> { "Hello, world! \u{E4}a\u{308} \u{1F004}\u{1F0CF}\u{1F170}\u{1F170}\u{FE0F}\n"@ }
pub open spec fn sas1() -> Seq<char> { "\n   \u{1F34E}       \u{1F3B8}       \u{1F576}        \u{1F34E}\n"@ }
pub open spec fn sas2() -> Seq<char> { " apple  guitar  glasses  apple\n\n"@ }
pub open spec fn sas3() -> Seq<char> { "           \u{1F638}     \u{1F3A9}    \u{1F511}\n"@ }
pub open spec fn sas4() -> Seq<char> { "           cat    hat    key\n\n"@ }
pub open spec fn wrap() -> Seq<char> { "The quick brown fox jumps over the lazy dog. Zw\u{F6}lf Boxk\u{E4}mpfer jagen Viktor quer \u{FC}ber den gro\u{DF}en Sylter Deich.\n"@ }
/// The pixels goose_poem inks
pub open spec fn goose(x: int, y: int) -> bool { inked(GlyphStyle::Regular, top(), poem(), x, y) }
/// Where the cursor of sample_text stands before each text
pub open spec fn c1() -> Cursor { after(GlyphStyle::Bold, top(), note()) }
pub open spec fn c2() -> Cursor { after(GlyphStyle::Regular, c1(), note()) }
pub open spec fn c3() -> Cursor { after(GlyphStyle::Small, c2(), note()) }
pub open spec fn c4() -> Cursor { after(GlyphStyle::Regular, c3(), sas1()) }
pub open spec fn c5() -> Cursor { after(GlyphStyle::Regular, c4(), sas2()) }
pub open spec fn c6() -> Cursor { after(GlyphStyle::Regular, c5(), sas3()) }
pub open spec fn c7() -> Cursor { after(GlyphStyle::Regular, c6(), sas4()) }
pub open spec fn c8() -> Cursor { after(GlyphStyle::Regular, c7(), wrap()) }
/// The box the last text goes to: 12 below the cursor, with wide margins
pub open spec fn small_box(c: Cursor) -> ClipRect {
    let y = c.pt.y + 12;
    ClipRect { min: Pt { x: 36, y: (if y <= 522 { y } else { 522 }) as usize }, max: Pt { x: 290, y: (if y <= 522 { 522 } else { y }) as usize } }
}
/// The pixels sample_text inks
pub open spec fn sample(x: int, y: int) -> bool {
    let (b, r, s) = (GlyphStyle::Bold, GlyphStyle::Regular, GlyphStyle::Small);
    ((((((((inked(b, top(), note(), x, y) != inked(r, c1(), note(), x, y)) != inked(s, c2(), note(), x, y))
        != inked(r, c3(), sas1(), x, y)) != inked(r, c4(), sas2(), x, y)) != inked(r, c5(), sas3(), x, y)) != inked(r, c6(), sas4(), x, y))
        != inked(r, c7(), wrap(), x, y))
        != painted(small_box(c8()), s, c8(), wrap(), x, y))
}
/// One step moves the cursor down by less than 257 rows
proof fn step_bound(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>)
    requires c.line_height <= 255, s.len() > 0
    ensures ({ let t = step(k, st, c, s); t.c.line_height <= 255 && t.c.pt.y <= c.pt.y + 256 })
{ }
/// Painting moves the cursor down by less than 257 rows per character
pub proof fn ends_bound(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>)
    requires c.line_height <= 255
    ensures ({ let e = ends(k, st, c, s).0; e.line_height <= 255 && e.pt.y <= c.pt.y + 256 * s.len() })
    decreases s.len()
{
    reveal_with_fuel(ends, 2);
    if s.len() > 0 {
        step_bound(k, st, c, s);
        let t = step(k, st, c, s);
        if 0 < t.n <= s.len() { ends_bound(k, st, t.c, s.skip(t.n)); }
    }
}
}
pub use demospec::*;
pub broadcast group group_vlib { bits::group_bits, strs::str_len_bound, fontspec::group_tables }
pub use crate::cliprect::ClipRect;
pub use crate::cursor::Cursor;
pub use crate::pt::Pt;
pub use crate::fonts::{GlyphSet, GlyphData, NoGlyphErr};
pub use crate::glyphstyle::GlyphStyle;
