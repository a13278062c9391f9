# Contracts of blitstr.  Each clause carries the label of the property (or part of one) it states.

== fn pt::Pt::new(x, y) -> r
-- sig usize;usize;->Pt
-- ensures geom_pt
r.x == x && r.y == y

== fn cliprect::ClipRect::new(min_x, min_y, max_x, max_y) -> r
-- sig usize;usize;usize;usize;->ClipRect
-- ensures geom_rect
r.min.x == (if min_x <= max_x { min_x } else { max_x }) && r.max.x == (if min_x <= max_x { max_x } else { min_x })
&& r.min.y == (if min_y <= max_y { min_y } else { max_y }) && r.max.y == (if min_y <= max_y { max_y } else { min_y })

== fn cliprect::ClipRect::full_screen() -> r
-- ensures geom_full
r.min.x == 0 && r.min.y == 0 && r.max.x == 336 && r.max.y == 536

== fn cliprect::ClipRect::padded_screen() -> r
-- ensures geom_padded
r.min.x == 6 && r.min.y == 6 && r.max.x == 330 && r.max.y == 530

== fn cursor::Cursor::new(x, y, line_height) -> r
-- sig usize;usize;usize;->Cursor
-- ensures geom_cursor
r.pt.x == x && r.pt.y == y && r.line_height == line_height

== fn cursor::Cursor::from_top_left_of(r) -> c
-- sig ClipRect;->Cursor
-- ensures geom_topleft
c.pt.x == r.min.x && c.pt.y == r.min.y && c.line_height == 0

== fn framebuffer::new_fr_buf() -> r
-- ensures geom_stripes
forall|xx_: int, yy_: int| on_buf(xx_, yy_) ==> #[trigger] px(r@, xx_, yy_) == (xx_ % 32 >= 16)
-- preamble
proof { stripes(); reveal(px); }

== fn glyphstyle::GlyphStyle::From::from(gs) -> r
-- ensures style_from
r == style_of(gs)

== fn glyphstyle::GlyphStyle::Into::into(self) -> r
-- ensures style_into
r == style_num(self) && style_of(r) == self
-- ensures style_cast
self as usize == style_num(self)

== fn glyphstyle::glyph_to_height_hint(g) -> r
-- sig GlyphStyle;->usize
-- ensures style_hint
r == max_height(latin(g))

== fn fonts::GlyphData::header(self) -> r
-- requires call
gd_off(self) < data(gd_set(self)).len()
-- ensures header
({ let d = data(gd_set(self))[gd_off(self)]; r.w == hw(d) && r.h == hh(d) && r.y_offset == hy(d) })
-- preamble
broadcast use crate::vlib::bits::group_header;

== fn fonts::GlyphData::nth_word(self, n) -> r
-- requires call
gd_off(self) + n < data(gd_set(self)).len()
-- ensures word
r == data(gd_set(self))[gd_off(self) + n]

== fn fonts::murmur3(key, seed, limit) -> r
-- sig &str;u32;u32;->(u32,usize)
-- ensures hash_value
r.0 == m3_cluster(key@.take(imin(limit as int, key@.len() as int)), seed)
-- ensures hash_bytes
r.1 == ulen(key@.take(imin(limit as int, key@.len() as int)))

== fn m3hash::grapheme_cluster(gc, seed, limit) -> r
-- sig &str;u32;u32;->(u32,usize)
-- ensures hash_value
r.0 == m3_cluster(gc@.take(imin(limit as int, gc@.len() as int)), seed)
-- ensures hash_bytes
r.1 == ulen(gc@.take(imin(limit as int, gc@.len() as int)))
-- preamble
hide(vstd::wrapping::u32_specs::wrapping_mul); hide(vstd::wrapping::u32_specs::wrapping_add);
broadcast use {crate::vlib::tabspec::group_m3, crate::vlib::strs::group_str};
proof { reveal(m3_mix); reveal(m3_cluster); }
-- local n n count
-- local h h hash
-- local bytes bytes_hashed
-- loop 0 invariant hash_value
ci_src($it) == gc@ && 0 <= ci_pos($it) <= gc@.len() && $n == ci_pos($it) && $n <= limit
-- loop 0 invariant hash_value
$h == m3_chars(gc@.take(ci_pos($it)), seed)
-- loop 0 invariant hash_bytes
$bytes == ulen(gc@)
-- loop 0 decreases terminates
gc@.len() - ci_pos($it)

== fn m3hash::frame_buffer(fb, seed) -> r
-- sig &[u32];u32;->u32
-- ensures hash_buffer
r == m3_fin(m3_words(fb@, seed) ^ (fb@.len() as u32))
-- preamble
hide(vstd::wrapping::u32_specs::wrapping_mul); hide(vstd::wrapping::u32_specs::wrapping_add);
broadcast use {crate::vlib::tabspec::group_m3w, crate::vlib::strs::group_str};
proof { reveal(m3_mix); }
-- local h h hash
-- loop 0 invariant hash_buffer
$v <= fb@.len() && $h == m3_words(fb@.take($v as int), seed)
-- loop 0 decreases terminates
$rem

== fn blit::clear_region(fb, clip)
-- sig &mutFrBuf;ClipRect;
-- attr verifier::rlimit(200)
-- attr verifier::spinoff_prover
-- ensures clear_invalid
!clip_ok(clip) ==> forall|xx_: int, yy_: int| on_buf(xx_, yy_) ==> #[trigger] px(final(fb)@, xx_, yy_) == px(old(fb)@, xx_, yy_)
-- ensures clear_inside
clip_ok(clip) ==> forall|xx_: int, yy_: int| on_buf(xx_, yy_) && in_clip(clip, xx_, yy_) ==> #[trigger] px(final(fb)@, xx_, yy_)
-- ensures clear_outside
clip_ok(clip) ==> forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !in_clip(clip, xx_, yy_) ==> #[trigger] px(final(fb)@, xx_, yy_) == px(old(fb)@, xx_, yy_)
-- snap fb = fb@
-- loop 0 invariant clear_loop
$lo <= $v && ($v <= $hi || $v == $lo) && clip.min.y <= $v && ($v <= clip.max.y || $v == clip.min.y)
-- loop 0 invariant clear_inside
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && in_clip(clip, xx_, yy_) && yy_ < $v ==> #[trigger] px(fb@, xx_, yy_)
-- loop 0 invariant clear_outside
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !(in_clip(clip, xx_, yy_) && yy_ < $v) ==> #[trigger] px(fb@, xx_, yy_) == px($fb, xx_, yy_)
-- loop 0 decreases terminates
$rem
-- loop 1 invariant clear_loop
$lo <= $v && ($v <= $hi || $v == $lo)
-- loop 1 invariant clear_inside
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && yy_ == $ocur && $lo <= xx_ / 32 < $v ==> #[trigger] px(fb@, xx_, yy_)
-- loop 1 invariant clear_outside
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !(yy_ == $ocur && $lo <= xx_ / 32 < $v) ==> #[trigger] px(fb@, xx_, yy_) == px($fb, xx_, yy_)
-- loop 1 decreases terminates
$rem
-- loop 1.1 invariant clear_loop
$lo <= $v && ($v <= $hi || $v == $lo)
-- loop 1.1 invariant clear_inside
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && $lo <= yy_ * 11 + xx_ / 32 < $v ==> #[trigger] px(fb@, xx_, yy_)
-- loop 1.1 invariant clear_outside
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !($lo <= yy_ * 11 + xx_ / 32 < $v) ==> #[trigger] px(fb@, xx_, yy_) == px($fb, xx_, yy_)
-- loop 1.1 decreases terminates
$rem
-- loop 1.2 invariant clear_loop
$lo <= $v && ($v <= $hi || $v == $lo)
-- loop 1.2 invariant clear_inside
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && yy_ == $ocur && $lo <= xx_ / 32 < $v && in_clip(clip, xx_, yy_) ==> #[trigger] px(fb@, xx_, yy_)
-- loop 1.2 invariant clear_outside
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !(yy_ == $ocur && $lo <= xx_ / 32 < $v && in_clip(clip, xx_, yy_)) ==> #[trigger] px(fb@, xx_, yy_) == px($fb, xx_, yy_)
-- loop 1.2 decreases terminates
$rem

== fn blit::newline(clip, c)
-- sig ClipRect;&mutCursor;
-- ensures newline
*final(c) == next_line(clip, *old(c))

== fn blit::xor_char(fb, clip, c, cluster, gs) -> r
-- sig &mutFrBuf;ClipRect;&mutCursor;&str;GlyphSet;->Result<usize,NoGlyphErr>
-- attr verifier::rlimit(2000)
-- attr verifier::spinoff_prover
-- ensures confine
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !(clip_wide(clip) && in_clip(clip, xx_, yy_)) ==> #[trigger] px(final(fb)@, xx_, yy_) == px(old(fb)@, xx_, yy_)
-- ensures pixels
match try_glyph(clip, *old(c), cluster@, gs) {
  Try::Put(pl_, c1_, n_) => forall|xx_: int, yy_: int| on_buf(xx_, yy_) ==> #[trigger] px(final(fb)@, xx_, yy_) == (px(old(fb)@, xx_, yy_) != flips(pl_, clip, xx_, yy_)),
  _ => forall|xx_: int, yy_: int| on_buf(xx_, yy_) ==> #[trigger] px(final(fb)@, xx_, yy_) == px(old(fb)@, xx_, yy_) }
-- ensures cursor
match try_glyph(clip, *old(c), cluster@, gs) { Try::Put(pl_, c1_, n_) => *final(c) == c1_, Try::NoRoom(c1_) => *final(c) == c1_, Try::NoGlyph => *final(c) == *old(c) }
-- ensures consumed
match try_glyph(clip, *old(c), cluster@, gs) { Try::Put(pl_, c1_, n_) => 0 < n_ <= cluster@.len() && r is Ok && r.unwrap() == ulen(cluster@.take(n_)), Try::NoRoom(c1_) => r is Ok && r.unwrap() == 0, Try::NoGlyph => r is Err }
-- preamble
broadcast use {crate::vlib::fontspec::lookup_ok, crate::vlib::model::row_span, crate::vlib::model::gpix_is};
-- snap fb = fb@
-- loop 0 invariant confine
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !in_clip(clip, xx_, yy_) ==> #[trigger] px(fb@, xx_, yy_) == px($fb, xx_, yy_)
-- loop 0 invariant rows
$lo <= $v
-- loop 0 invariant pixels
try_glyph(clip, *old(c), cluster@, gs) is Put
-- loop 0 invariant pixels
({ let pl_ = put_of(try_glyph(clip, *old(c), cluster@, gs)); forall|xx_: int, yy_: int| on_buf(xx_, yy_) ==> #[trigger] px(fb@, xx_, yy_) == (px($fb, xx_, yy_) != (yy_ < pl_.y + $v && flips(pl_, clip, xx_, yy_))) })
-- loop 0.1 invariant rows
$lo <= $v
-- loop 0.1 invariant confine
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !in_clip(clip, xx_, yy_) ==> #[trigger] px(fb@, xx_, yy_) == px($fb, xx_, yy_)
-- loop 0.1 invariant pixels
try_glyph(clip, *old(c), cluster@, gs) is Put
-- loop 0.1 invariant pixels
({ let pl_ = put_of(try_glyph(clip, *old(c), cluster@, gs)); forall|xx_: int, yy_: int| on_buf(xx_, yy_) ==> #[trigger] px(fb@, xx_, yy_) == (px($fb, xx_, yy_) != (yy_ < $v && flips(pl_, clip, xx_, yy_))) })
-- loop 0 decreases terminates
$rem
-- loop 0.1 decreases terminates
$rem

== fn blit::paint_str(fb, clip, c, st, s)
-- sig &mutFrBuf;ClipRect;&mutCursor;GlyphStyle;&str;
-- attr verifier::rlimit(2000)
-- attr verifier::spinoff_prover
-- ensures confine
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !(clip_wide(clip) && in_clip(clip, xx_, yy_)) ==> #[trigger] px(final(fb)@, xx_, yy_) == px(old(fb)@, xx_, yy_)
-- ensures pixels
forall|xx_: int, yy_: int| on_buf(xx_, yy_) ==> #[trigger] px(final(fb)@, xx_, yy_) == (px(old(fb)@, xx_, yy_) != painted(clip, st, *old(c), s@, xx_, yy_))
-- ensures cursor
ends(clip, st, *old(c), s@).1 || wide36(clip) ==> *final(c) == ends(clip, st, *old(c), s@).0
-- preamble
hide(try_glyph); hide(flips); hide(next_line);
broadcast use {crate::vlib::model::group_paint, crate::vlib::strs::group_str};
proof { reveal_strlit("\u{FFFD}"); assert("\u{FFFD}"@ =~= seq!['\u{FFFD}']); }
-- local rest cluster rest remaining s
-- loop 0 invariant terminates
ulen($rest@) <= $rem || stuck(clip, st, *c, $rest@)
-- loop 0 invariant confine
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && !(clip_wide(clip) && in_clip(clip, xx_, yy_)) ==> #[trigger] px(fb@, xx_, yy_) == px(old(fb)@, xx_, yy_)
-- loop 0 invariant pixels
forall|xx_: int, yy_: int| on_buf(xx_, yy_) ==> (#[trigger] px(fb@, xx_, yy_) != painted(clip, st, *c, $rest@, xx_, yy_)) == (px(old(fb)@, xx_, yy_) != painted(clip, st, *old(c), s@, xx_, yy_))
-- loop 0 invariant cursor
ends(clip, st, *c, $rest@).1 == ends(clip, st, *old(c), s@).1 && (ends(clip, st, *old(c), s@).1 || wide36(clip) ==> ends(clip, st, *c, $rest@) == ends(clip, st, *old(c), s@))
-- loop 0 decreases terminates
$rem

== fn demo::short_greeting(fb)
-- sig &mutFrBuf;
-- ensures demo_ink
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && xx_ < 336 ==> #[trigger] px(final(fb)@, xx_, yy_) == !greeting(xx_, yy_)
-- ensures demo_margin
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && xx_ >= 336 ==> #[trigger] px(final(fb)@, xx_, yy_) == px(old(fb)@, xx_, yy_)

== fn demo::goose_poem(fb)
-- sig &mutFrBuf;
-- ensures demo_ink
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && xx_ < 336 ==> #[trigger] px(final(fb)@, xx_, yy_) == !goose(xx_, yy_)
-- ensures demo_margin
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && xx_ >= 336 ==> #[trigger] px(final(fb)@, xx_, yy_) == px(old(fb)@, xx_, yy_)

== fn demo::sample_text(fb)
-- sig &mutFrBuf;
-- ensures demo_ink
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && xx_ < 336 ==> #[trigger] px(final(fb)@, xx_, yy_) == !sample(xx_, yy_)
-- ensures demo_margin
forall|xx_: int, yy_: int| on_buf(xx_, yy_) && xx_ >= 336 ==> #[trigger] px(final(fb)@, xx_, yy_) == px(old(fb)@, xx_, yy_)
-- preamble
proof {
    reveal_strlit("Hello, world! \u{E4}a\u{308} \u{1F004}\u{1F0CF}\u{1F170}\u{1F170}\u{FE0F}\n");
    reveal_strlit("\n   \u{1F34E}       \u{1F3B8}       \u{1F576}        \u{1F34E}\n");
    reveal_strlit(" apple  guitar  glasses  apple\n\n");
    reveal_strlit("           \u{1F638}     \u{1F3A9}    \u{1F511}\n");
    reveal_strlit("           cat    hat    key\n\n");
    reveal_strlit("The quick brown fox jumps over the lazy dog. Zw\u{F6}lf Boxk\u{E4}mpfer jagen Viktor quer \u{FC}ber den gro\u{DF}en Sylter Deich.\n");
    ends_bound(padded(), GlyphStyle::Bold, top(), note());
    ends_bound(padded(), GlyphStyle::Regular, c1(), note());
    ends_bound(padded(), GlyphStyle::Small, c2(), note());
    ends_bound(padded(), GlyphStyle::Regular, c3(), sas1());
    ends_bound(padded(), GlyphStyle::Regular, c4(), sas2());
    ends_bound(padded(), GlyphStyle::Regular, c5(), sas3());
    ends_bound(padded(), GlyphStyle::Regular, c6(), sas4());
    ends_bound(padded(), GlyphStyle::Regular, c7(), wrap());
}
