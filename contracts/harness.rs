// Properties over several calls, as executable harnesses verified against the contracts only.
pub mod harness {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vlib::*;
use crate::framebuffer::FrBuf;
broadcast use crate::vlib::group_vlib;

/// C04: the same text painted twice leaves the picture as it was
pub fn paint_twice(fb: &mut FrBuf, clip: ClipRect, c: Cursor, st: GlyphStyle, s: &str)
    ensures
        final(fb)@ == old(fb)@ /*@involution@*/
{
    let mut a = c;
    crate::blit::paint_str(fb, clip, &mut a, st, s);
    let mut b = c;
    crate::blit::paint_str(fb, clip, &mut b, st, s);
    proof { px_ext(fb@, old(fb)@); } /*@involution@*/
}
/// C04: what is flipped does not depend on the picture
pub fn paint_two_backgrounds(f: &mut FrBuf, g: &mut FrBuf, clip: ClipRect, c: Cursor, st: GlyphStyle, s: &str)
    ensures
        forall|x: int, y: int| on_buf(x, y) ==> (#[trigger] px(final(f)@, x, y) != px(old(f)@, x, y)) == (px(final(g)@, x, y) != px(old(g)@, x, y)) /*@background@*/
{
    let mut a = c;
    crate::blit::paint_str(f, clip, &mut a, st, s);
    let mut b = c;
    crate::blit::paint_str(g, clip, &mut b, st, s);
}

/// s painted from c is cut into clusters the same way with and without what follows the
/// first m chars, and all of those are used
pub open spec fn cut(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>, m: int) -> bool
    decreases s.len()
{
    m == 0 || (0 < m <= s.len() && {
        let t = step(k, st, c, s);
        t == step(k, st, c, s.take(m)) && 0 < t.n <= m && cut(k, st, t.c, s.skip(t.n), m - t.n)
    })
}
pub proof fn painted_concat(k: ClipRect, st: GlyphStyle, c: Cursor, s: Seq<char>, m: int, x: int, y: int)
    requires 0 <= m <= s.len(), cut(k, st, c, s, m)
    ensures
        ends(k, st, c, s.take(m)).1,
        painted(k, st, c, s, x, y) == (painted(k, st, c, s.take(m), x, y) != painted(k, st, ends(k, st, c, s.take(m)).0, s.skip(m), x, y)),
        ends(k, st, c, s) == ends(k, st, ends(k, st, c, s.take(m)).0, s.skip(m)),
    decreases s.len()
{
    reveal_with_fuel(painted, 2);
    reveal_with_fuel(ends, 2);
    let p = s.take(m);
    if m == 0 {
        assert(s.skip(0) =~= s);
    } else {
        let t = step(k, st, c, s);
        let r = s.skip(t.n);
        painted_concat(k, st, t.c, r, m - t.n, x, y);
        assert(p.skip(t.n) =~= r.take(m - t.n));
        assert(s.skip(m) =~= r.skip(m - t.n));
    }
}
/// C07: painting in two pieces, from the same cursor, is painting the whole
pub fn paint_pieces(f: &mut FrBuf, g: &mut FrBuf, clip: ClipRect, c: &mut Cursor, d: &mut Cursor, st: GlyphStyle, whole: &str, a: &str, b: &str)
    requires
        old(f)@ == old(g)@, *old(c) == *old(d), whole@ == a@ + b@, cut(clip, st, *old(c), whole@, a@.len() as int) /*@call@*/
    ensures
        final(f)@ == final(g)@, /*@concat@*/
        ends(clip, st, *old(c), whole@).1 ==> *final(c) == *final(d) /*@concat@*/
{
    crate::blit::paint_str(f, clip, c, st, whole);
    crate::blit::paint_str(g, clip, d, st, a);
    let ghost m = a@.len() as int;
    let ghost c0 = *old(c);
    assert(whole@.take(m) =~= a@); /*@concat@*/
    assert(whole@.skip(m) =~= b@); /*@concat@*/
    proof {
        painted_concat(clip, st, c0, whole@, m, 0, 0); /*@concat@*/
    }
    crate::blit::paint_str(g, clip, d, st, b);
    proof {
        assert forall|x: int, y: int| on_buf(x, y) implies #[trigger] px(f@, x, y) == px(g@, x, y) by { painted_concat(clip, st, c0, whole@, m, x, y); } /*@concat@*/
        px_ext(f@, g@); /*@concat@*/
    }
}
}
