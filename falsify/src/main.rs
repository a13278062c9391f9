//! Runs the real crate against the reference in model.rs: a search for an input on which a
//! property fails (used to attach a failing input to a failed proof obligation, and as the
//! stated bounded check where an obligation could not be decided).
//!
//!   falsify run PROP DUMP DICT SEED SECONDS REPLAY_OUT
//!   falsify replay DUMP FILE
mod model;
use blitstr::*;
use model::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[cfg(feature = "m3hash")]
#[path = "/repo/src/m3hash.rs"]
#[allow(dead_code)]
mod m3hash;

#[derive(Clone, Debug, PartialEq)]
struct Case {
    kind: String, // paint | clear | hash | geom | style | demo
    clip: [usize; 4],
    cur: [usize; 3],
    style: usize, // index into Fonts: BOLD, REGULAR, SMALL
    bg: u64,
    pieces: Vec<String>,
    n: [usize; 2],
}
impl Case {
    fn new(kind: &str) -> Case {
        Case { kind: kind.into(), clip: [0, 0, W, H], cur: [0; 3], style: REGULAR, bg: 0, pieces: vec![], n: [0; 2] }
    }
    fn text(&self) -> String {
        let mut s = format!("kind {}\nclip {:?}\ncursor {:?}\nstyle {}\nbackground {}\nn {:?}\n", self.kind, self.clip, self.cur, ["", "Bold", "Regular", "Small"][self.style], self.bg, self.n);
        for p in &self.pieces {
            s += "piece";
            for c in p.chars() {
                s += &format!(" {:X}", c as u32);
            }
            s += "\n";
        }
        s
    }
    fn parse(t: &str) -> Case {
        let mut c = Case::new("paint");
        let nums = |s: &str| -> Vec<usize> { s.trim_matches(|c| c == '[' || c == ']').split(", ").map(|x| x.parse().unwrap()).collect() };
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "kind" => c.kind = v.into(),
                "clip" => c.clip.copy_from_slice(&nums(v)),
                "cursor" => c.cur.copy_from_slice(&nums(v)),
                "style" => c.style = ["", "Bold", "Regular", "Small"].iter().position(|x| *x == v).unwrap(),
                "background" => c.bg = v.parse().unwrap(),
                "n" => c.n.copy_from_slice(&nums(v)),
                "piece" => c.pieces.push(v.split(' ').filter(|x| !x.is_empty()).map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect()),
                _ => {}
            }
        }
        c
    }
    fn k(&self) -> Clip {
        Clip { x0: self.clip[0], y0: self.clip[1], x1: self.clip[2], y1: self.clip[3] }
    }
    fn rect(&self) -> ClipRect {
        ClipRect { min: Pt { x: self.clip[0], y: self.clip[1] }, max: Pt { x: self.clip[2], y: self.clip[3] } }
    }
    fn c(&self) -> Cur {
        Cur { x: self.cur[0], y: self.cur[1], lh: self.cur[2] }
    }
    fn cursor(&self) -> Cursor {
        Cursor { pt: Pt { x: self.cur[0], y: self.cur[1] }, line_height: self.cur[2] }
    }
    fn st(&self) -> GlyphStyle {
        match self.style {
            BOLD => GlyphStyle::Bold,
            SMALL => GlyphStyle::Small,
            _ => GlyphStyle::Regular,
        }
    }
    fn all(&self) -> String {
        self.pieces.concat()
    }
    fn fb(&self) -> FrBuf {
        let mut f = [0u32; FRAME_BUF_SIZE];
        match self.bg {
            0 => {}
            1 => f = [!0; FRAME_BUF_SIZE],
            s if s >> 40 == 1 => f = [s as u32; FRAME_BUF_SIZE],
            s => {
                let mut r = Rng(s);
                for w in f.iter_mut() {
                    *w = r.next() as u32;
                }
            }
        }
        f
    }
}
fn cur_of(c: &Cursor) -> Cur {
    Cur { x: c.pt.x, y: c.pt.y, lh: c.line_height }
}

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

/// Numbers and texts that occur in the source under test
struct Dict {
    nums: Vec<usize>,
    strs: Vec<String>,
}
fn load_dict(t: &str) -> Dict {
    let mut d = Dict { nums: vec![], strs: vec![] };
    for l in t.lines() {
        if let Some(v) = l.strip_prefix("n ") {
            d.nums.push(v.parse().unwrap());
        } else if let Some(v) = l.strip_prefix("s ") {
            d.strs.push(v.split(' ').filter_map(|x| char::from_u32(u32::from_str_radix(x, 16).ok()?)).collect());
        }
    }
    d
}
struct Ctx {
    fonts: Fonts,
    dict: Dict,
}

type Res = Result<(), String>;
fn diff(a: &[u32], b: &[u32], what: &str) -> Res {
    for i in 0..SIZE {
        if a[i] != b[i] {
            let x = i % WPL * 32 + (a[i] ^ b[i]).trailing_zeros() as usize;
            return Err(format!("{}: pixel x={} y={}: expected {}, got {}", what, x, i / WPL, (a[i] >> (x % 32)) & 1, (b[i] >> (x % 32)) & 1));
        }
    }
    Ok(())
}

fn run_paint(prop: &str, cx: &Ctx, c: &Case) -> Res {
    let k = c.k();
    let before = c.fb();
    let mut fb = before;
    let mut cu = c.cursor();
    let s = c.all();
    match prop {
        "C01" => {
            for p in &c.pieces {
                paint_str(&mut fb, c.rect(), &mut cu, c.st(), p);
            }
            Ok(())
        }
        "C02" => {
            // what was painted before a panic (C01's matter) must be confined too
            let _ = catch_unwind(AssertUnwindSafe(|| {
                for p in &c.pieces {
                    paint_str(&mut fb, c.rect(), &mut cu, c.st(), p);
                }
            }));
            let valid = k.wide();
            let mut exp = fb;
            for y in 0..H {
                for w in 0..WPL {
                    let mut m = 0u32;
                    if valid && k.y0 <= y && y < k.y1 {
                        for b in 0..32 {
                            if k.x0 <= w * 32 + b && w * 32 + b < k.x1 {
                                m |= 1 << b;
                            }
                        }
                    }
                    let i = y * WPL + w;
                    exp[i] = (fb[i] & m) | (before[i] & !m);
                }
            }
            diff(&exp, &fb, "changed outside the clip rect")
        }
        "C04" => {
            let mut cu2 = c.cursor();
            paint_str(&mut fb, c.rect(), &mut cu, c.st(), &s);
            let once = fb;
            paint_str(&mut fb, c.rect(), &mut cu2, c.st(), &s);
            diff(&before, &fb, "painting twice does not restore the picture")?;
            let mut o = [0u32; SIZE];
            let mut cu3 = c.cursor();
            paint_str(&mut o, c.rect(), &mut cu3, c.st(), &s);
            for i in 0..SIZE {
                o[i] ^= before[i];
            }
            diff(&o, &once, "what is flipped depends on the picture")?;
            Ok(())
        }
        "C07" => {
            // pieces end at cluster boundaries, and none of them runs out of room
            let chars: Vec<char> = s.chars().collect();
            let m = paint(&cx.fonts, &k, c.c(), c.style, &chars);
            let mut at = 0;
            for p in &c.pieces {
                at += p.chars().count();
                if at > 0 && !m.cuts.contains(&at) {
                    return Ok(());
                }
                // the front is cut into the same clusters when nothing follows it
                let front = paint(&cx.fonts, &k, c.c(), c.style, &chars[..at]);
                if front.stuck || !m.cuts.starts_with(&front.cuts) {
                    return Ok(());
                }
            }
            if m.stuck {
                return Ok(());
            }
            let mut parts = before;
            let mut cp = c.cursor();
            for p in &c.pieces {
                paint_str(&mut parts, c.rect(), &mut cp, c.st(), p);
            }
            paint_str(&mut fb, c.rect(), &mut cu, c.st(), &s);
            diff(&fb, &parts, "painting in pieces differs from painting the whole")?;
            if cu != cp {
                return Err(format!("cursor after the pieces {:?}, after the whole {:?}", cp, cu));
            }
            Ok(())
        }
        _ => {
            paint_str(&mut fb, c.rect(), &mut cu, c.st(), &s);
            let chars: Vec<char> = s.chars().collect();
            let m = paint(&cx.fonts, &k, c.c(), c.style, &chars);
            if prop != "C05" {
                let mut exp = before;
                for i in 0..SIZE {
                    exp[i] ^= m.mask[i];
                }
                diff(&exp, &fb, "painted picture")?;
            }
            if prop == "C05" || prop == "C06" {
                if (!m.stuck || k.x0.saturating_add(35) < k.x1) && cur_of(&cu) != m.cur {
                    return Err(format!("cursor: expected {:?}, got {:?}", m.cur, cur_of(&cu)));
                }
            }
            Ok(())
        }
    }
}

fn demo_fn(n: usize) -> fn(&mut FrBuf) {
    [demo::sample_text, demo::short_greeting, demo::goose_poem][n % 3]
}

fn run_case(prop: &str, cx: &Ctx, c: &Case) -> Res {
    match c.kind.as_str() {
        "paint" => run_paint(prop, cx, c),
        "clear" => {
            let before = c.fb();
            let mut fb = before;
            clear_region(&mut fb, c.rect());
            if prop == "C01" {
                return Ok(());
            }
            let mut exp = before;
            clear(&mut exp, &c.k());
            diff(&exp, &fb, "clear_region")
        }
        "hash" => {
            let s = c.all();
            let v: Vec<char> = s.chars().collect();
            let e = murmur(&v, c.n[0] as u32, c.n[1]);
            #[cfg(not(feature = "m3hash"))]
            let g = e;
            #[cfg(feature = "m3hash")]
            let g = m3hash::grapheme_cluster(&s, c.n[0] as u32, c.n[1] as u32);
            if e != g && prop != "C01" {
                return Err(format!("hash of {:?}, seed {}, limit {}: expected {:?}, got {:?}", s, c.n[0], c.n[1], e, g));
            }
            #[cfg(feature = "m3hash")]
            {
                // the hash of a buffer: the same words, some with their high bits set
                let mut w: Vec<u32> = v.iter().enumerate().map(|(i, c)| (*c as u32).rotate_right((i as u32 * 7 + c_bits(c)) % 32)).collect();
                if c.bg >> 40 == 1 {
                    // then one word over and over, and its neighbours
                    let x = c.bg as u32;
                    w.extend([x.wrapping_sub(1), x.wrapping_add(1), !x]);
                    w.extend(vec![x; [1, 3, 11, FRAME_BUF_SIZE - w.len().min(FRAME_BUF_SIZE), FRAME_BUF_SIZE + 1][c.n[1] % 5]]);
                } else if c.bg == 1 {
                    // as long as a frame buffer
                    let n = w.len().max(1);
                    while w.len() < FRAME_BUF_SIZE {
                        let i = w.len();
                        w.push((i as u32).wrapping_mul(0x9e3779b1) ^ if i >= n { w[i - n] } else { 0 });
                    }
                }
                let (e, g) = (murmur_words(&w, c.n[0] as u32), m3hash::frame_buffer(&w, c.n[0] as u32));
                if e != g && prop != "C01" {
                    return Err(format!("hash of the {} words {:X?}{}, seed {}: expected {:X}, got {:X}", w.len(), &w[..w.len().min(40)], if w.len() > 40 { " .." } else { "" }, c.n[0], e, g));
                }
            }
            Ok(())
        }
        "geom" => {
            let [a, b, x, y] = c.clip;
            let r = ClipRect::new(a, b, x, y);
            let e = ClipRect { min: Pt { x: a.min(x), y: b.min(y) }, max: Pt { x: a.max(x), y: b.max(y) } };
            let f = ClipRect { min: Pt { x: 0, y: 0 }, max: Pt { x: W, y: H } };
            let p = ClipRect { min: Pt { x: 6, y: 6 }, max: Pt { x: 330, y: 530 } };
            if prop == "C01" {
                let _ = (ClipRect::full_screen(), ClipRect::padded_screen(), Pt::new(a, b), Cursor::new(a, b, x), Cursor::from_top_left_of(r), new_fr_buf());
                return Ok(());
            }
            if r != e || ClipRect::full_screen() != f || ClipRect::padded_screen() != p {
                return Err(format!("ClipRect::new({}, {}, {}, {}) = {:?}; full {:?} padded {:?}", a, b, x, y, r, ClipRect::full_screen(), ClipRect::padded_screen()));
            }
            if Pt::new(a, b) != (Pt { x: a, y: b }) || Cursor::new(a, b, x) != (Cursor { pt: Pt { x: a, y: b }, line_height: x }) {
                return Err(format!("Pt::new({}, {}) or Cursor::new(.., {})", a, b, x));
            }
            let q = ClipRect { min: Pt { x: a, y: b }, max: Pt { x, y } };
            if Cursor::from_top_left_of(q) != (Cursor { pt: Pt { x: a, y: b }, line_height: 0 }) {
                return Err(format!("Cursor::from_top_left_of({:?}) = {:?}", q, Cursor::from_top_left_of(q)));
            }
            if WIDTH != W || LINES != H || WORDS_PER_LINE != WPL || FRAME_BUF_SIZE != SIZE {
                return Err("frame buffer dimensions".into());
            }
            diff(&[0xffff0000; SIZE], &new_fr_buf(), "new_fr_buf")
        }
        "style" => {
            let n = c.n[0];
            let e = match n {
                0 => GlyphStyle::Small,
                2 => GlyphStyle::Bold,
                _ => GlyphStyle::Regular,
            };
            if GlyphStyle::from(n) != e && prop != "C01" {
                return Err(format!("GlyphStyle::from({}) = {:?}", n, GlyphStyle::from(n)));
            }
            for (s, i, f) in [(GlyphStyle::Small, 0, SMALL), (GlyphStyle::Regular, 1, REGULAR), (GlyphStyle::Bold, 2, BOLD)] {
                let u: usize = s.into();
                if (u != i || s as usize != i || glyph_to_height_hint(s) != cx.fonts.0[f].height) && prop != "C01" {
                    return Err(format!("{:?}: number {} (cast {}), height {}", s, u, s as usize, glyph_to_height_hint(s)));
                }
                // the hint is how far a line of that style advances
                let (mut fb, mut cu) = (new_fr_buf(), Cursor::new(0, 0, 0));
                paint_str(&mut fb, ClipRect::full_screen(), &mut cu, s, "A");
                if cu.line_height != glyph_to_height_hint(s) && prop != "C01" {
                    return Err(format!("{:?}: hint {}, line height {}", s, glyph_to_height_hint(s), cu.line_height));
                }
            }
            Ok(())
        }
        "demo" => {
            let mut fb = c.fb();
            for x in 0..3 {
                if c.n[1] & (1 << x) != 0 {
                    demo_fn(x)(&mut fb); // something painted before
                }
            }
            demo_fn(c.n[0])(&mut fb);
            if prop == "C01" {
                return Ok(());
            }
            let mut e = [!0u32; SIZE];
            let mut go = |k: &Clip, c: Cur, st: usize, s: &str| -> Cur {
                let v: Vec<char> = s.chars().collect();
                let m = paint(&cx.fonts, k, c, st, &v);
                for i in 0..SIZE {
                    e[i] ^= m.mask[i];
                }
                m.cur
            };
            let k = Clip { x0: 6, y0: 6, x1: 330, y1: 530 };
            let mut cu = Cur { x: 6, y: 6, lh: 0 };
            match c.n[0] % 3 {
                0 => {
                    for (st, s) in DEMO {
                        cu = go(&k, cu, *st, s);
                    }
                    let k2 = Clip { x0: 36, y0: cu.y + 12, x1: 290, y1: 522 };
                    go(&k2, cu, SMALL, DEMO[7].1);
                }
                1 => {
                    cu = go(&k, cu, REGULAR, "Hello, world!\n");
                    go(&k, cu, REGULAR, "Hello, 😸!\n");
                }
                _ => {
                    go(&k, cu, REGULAR, "鹅、鹅、鹅，\n曲项向天歌。\n白毛浮绿水，\n红掌拨清波\n");
                }
            }
            let m = |v: &[u32]| -> Vec<u32> { v.iter().enumerate().map(|(i, w)| if i % WPL == 10 { w & 0xffff } else { *w }).collect() };
            diff(&m(&e), &m(&fb), "demo screen")
        }
        k => panic!("kind {}", k),
    }
}
include!("demo_text.rs");

/// Ok, or what failed (a panic is a failure of every property except those about values only)
fn check(prop: &str, cx: &Ctx, c: &Case) -> Res {
    match catch_unwind(AssertUnwindSafe(|| run_case(prop, cx, c))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {}", m))
        }
    }
}

// ------------------------------------------------------------------ generators
fn edge(r: &mut Rng, d: &Dict, hi: usize) -> usize {
    match r.below(12) {
        0 => 0,
        1 => hi,
        2 => hi.saturating_sub(r.below(40)),
        3 => r.below(40),
        4 => (r.below(hi / 32 + 1) * 32 + r.below(3)).saturating_sub(1),
        5 if !d.nums.is_empty() => (d.nums[r.below(d.nums.len())] + r.below(3)).saturating_sub(1),
        _ => r.below(hi + 1),
    }
}
fn fill(w: usize) -> u64 {
    (1 << 40) | (w as u64 & 0xffff_ffff)
}
fn wild(r: &mut Rng, d: &Dict) -> usize {
    match r.below(8) {
        0 => usize::MAX - r.below(400),
        1 => usize::MAX / 2 + r.below(3),
        2 => 1 << r.below(64),
        3 => r.next() as usize,
        4 => u32::MAX as usize - r.below(40),
        5 if !d.nums.is_empty() => d.nums[r.below(d.nums.len())],
        _ => r.below(1000),
    }
}
fn any_char(r: &mut Rng) -> char {
    loop {
        let u = match r.below(8) {
            0 => r.below(0x80) as u32,
            1 => r.below(0x800) as u32,
            2 => 0x2000 + r.below(0x1200) as u32,
            3 => 0x4e00 + r.below(0x5200) as u32,
            4 => 0x1f000 + r.below(0xc00) as u32,
            5 => 0xfe00 + r.below(0x200) as u32,
            _ => r.below(0x110000) as u32,
        };
        if let Some(c) = char::from_u32(u) {
            return c;
        }
    }
}
fn cluster(r: &mut Rng, f: &Fonts, style: usize) -> String {
    let k = match r.below(8) {
        0 => EMOJI,
        1 => HANZI,
        2 => [BOLD, REGULAR, SMALL][r.below(3)],
        _ => style,
    };
    let l = &f.0[k].list;
    l[r.below(l.len())].iter().map(|c| char::from_u32(*c).unwrap()).collect()
}
fn text(r: &mut Rng, cx: &Ctx, style: usize, max: usize) -> Vec<String> {
    let n = match r.below(4) {
        0 => 1,
        1 => r.below(4),
        _ => r.below(max + 1),
    };
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let s = match r.below(16) {
            0 => "\n".to_string(),
            1 => any_char(r).to_string(),
            2 if !cx.dict.strs.is_empty() => cx.dict.strs[r.below(cx.dict.strs.len())].clone(),
            3 => {
                // a cluster cut short, or with a tail
                let mut t: Vec<char> = cluster(r, &cx.fonts, EMOJI).chars().collect();
                if r.one_in(2) {
                    t.truncate(1 + r.below(t.len()));
                } else {
                    t.push(['\u{FE0F}', '\u{200D}', '\u{20E3}', '\u{1F3FD}', '\u{308}'][r.below(5)]);
                }
                t.into_iter().collect()
            }
            4 => cluster(r, &cx.fonts, EMOJI),
            5 => " ".to_string(),
            6 => char::from_u32(0x21 + r.below(0x5e) as u32).unwrap().to_string(),
            7 if !v.is_empty() => v[v.len() - 1].clone(),
            _ => cluster(r, &cx.fonts, style),
        };
        v.push(s);
    }
    v
}
#[cfg(feature = "m3hash")]
fn c_bits(c: &char) -> u32 {
    *c as u32 % 5 * 3
}
fn gen_clip(r: &mut Rng, d: &Dict) -> [usize; 4] {
    match r.below(10) {
        0 => [0, 0, W, H],
        1 => [6, 6, 330, 530],
        2 => [wild(r, d), edge(r, d, H), edge(r, d, W), edge(r, d, H)],
        3 => {
            let mut c = [edge(r, d, W), edge(r, d, H), edge(r, d, W), edge(r, d, H)];
            c[r.below(4)] = wild(r, d);
            c
        }
        4 => {
            // narrow
            let x = edge(r, d, W);
            let y = edge(r, d, H);
            [x, y, (x + r.below(45)).min(W + 1), (y + r.below(45)).min(H + 1)]
        }
        _ => {
            let (a, b) = (edge(r, d, W), edge(r, d, W));
            let (e, f) = (edge(r, d, H), edge(r, d, H));
            [a.min(b), e.min(f), a.max(b), e.max(f)]
        }
    }
}
fn gen_cursor(r: &mut Rng, d: &Dict, k: &[usize; 4]) -> [usize; 3] {
    let near = |r: &mut Rng, v: usize| (v.saturating_add(r.below(70))).saturating_sub(35);
    let x = match r.below(8) {
        0 => k[0],
        1 => near(r, k[0]),
        2 => near(r, k[2]),
        3 => wild(r, d),
        _ => k[0].saturating_add(r.below(k[2].saturating_sub(k[0]).min(400) + 2)),
    };
    let y = match r.below(8) {
        0 => k[1],
        1 => near(r, k[1]),
        2 => near(r, k[3]),
        3 => wild(r, d),
        _ => k[1].saturating_add(r.below(k[3].saturating_sub(k[1]).min(600) + 2)),
    };
    let lh = match r.below(8) {
        0 => wild(r, d),
        1 => r.below(64),
        2 => [24, 30, 32, 23, 25, 31, 33, 29][r.below(8)],
        _ => 0,
    };
    [x, y, lh]
}
fn gen(prop: &str, r: &mut Rng, cx: &Ctx) -> Case {
    let d = &cx.dict;
    let kind = match prop {
        "C08" => "clear",
        "C11" => "hash",
        "C12" => "geom",
        "C13" => "style",
        "C14" => "demo",
        "C01" => ["paint", "paint", "paint", "paint", "paint", "clear", "hash", "geom", "style", "demo"][r.below(10)],
        _ => "paint",
    };
    let mut c = Case::new(kind);
    c.bg = [0, 1, 2 + r.below(1000000) as u64][r.below(3)];
    if r.one_in(6) {
        c.bg = fill(wild(r, &cx.dict)); // the same word everywhere
    }
    match kind {
        "paint" => {
            c.style = [BOLD, REGULAR, SMALL][r.below(3)];
            if prop == "C06" || prop == "C10" || (prop == "C07" && r.one_in(2)) {
                // plenty of room
                c.clip = [0, 0, W, H];
                c.cur = [r.below(100), r.below(60), 0];
                c.pieces = text(r, cx, c.style, 6);
            } else {
                c.clip = gen_clip(r, d);
                c.cur = gen_cursor(r, d, &c.clip);
                let max = if r.one_in(12) { 200 } else { 12 };
                c.pieces = text(r, cx, c.style, max);
            }
        }
        "clear" => c.clip = gen_clip(r, d),
        "hash" => {
            c.n[0] = if r.one_in(2) { 0 } else { r.next() as u32 as usize };
            c.n[1] = if r.one_in(6) { [u32::MAX as usize, 0, 1 << 31, 1000][r.below(4)] } else { r.below(10) };
            c.pieces = text(r, cx, REGULAR, 6);
        }
        "geom" => {
            for i in 0..4 {
                c.clip[i] = if r.one_in(2) { wild(r, d) } else { edge(r, d, 540) };
            }
        }
        "style" => c.n[0] = if r.one_in(2) { r.below(10) } else { wild(r, d) },
        _ => c.n = [r.below(3), r.below(8)],
    }
    c
}
/// Cases every run covers, whatever the seed
fn fixed(prop: &str, cx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    match prop {
        "C14" | "C01" => {
            for n in 0..3 {
                for w in &cx.dict.nums {
                    let mut c = Case::new("demo");
                    c.n = [n, 0];
                    c.bg = fill(*w);
                    v.push(c);
                }
                for m in 0..8 {
                    for bg in [0, 1, 77] {
                        let mut c = Case::new("demo");
                        c.n = [n, m];
                        c.bg = bg;
                        v.push(c);
                    }
                }
            }
        }
        "C13" => {
            for n in (0..70).chain([usize::MAX, 256, 258, 1 << 32, (1 << 32) + 2]) {
                let mut c = Case::new("style");
                c.n[0] = n;
                v.push(c);
            }
        }
        "C11" => {
            for n in 0..5 {
                for w in &cx.dict.nums {
                    let mut c = Case::new("hash");
                    c.n = [0, n];
                    c.bg = fill(*w);
                    v.push(c);
                }
            }
            for f in &cx.fonts.0 {
                for l in &f.list {
                    for n in 1..9 {
                        let mut c = Case::new("hash");
                        c.n = [0, n];
                        c.pieces = vec![l.iter().map(|c| char::from_u32(*c).unwrap()).collect()];
                        v.push(c);
                    }
                }
            }
        }
        "C08" => {
            for x0 in 0..W {
                for x1 in x0..=W {
                    let mut c = Case::new("clear");
                    c.clip = [x0, (x0 * 7) % 530, x1, (x0 * 7) % 530 + 1 + x1 % 4];
                    c.bg = [0, 1, 5][x1 % 3];
                    v.push(c);
                }
            }
            for y0 in 0..=H {
                for y1 in [y0, y0 + 1, y0 + 2, H - 1, H, H + 1] {
                    let mut c = Case::new("clear");
                    c.clip = [31, y0, 97, y1];
                    v.push(c);
                }
            }
        }
        _ => {}
    }
    if matches!(prop, "C02" | "C03" | "C06" | "C10" | "C09" | "C04" | "C05" | "C01") {
        // every cluster of every font in every style
        for f in &cx.fonts.0 {
            for (i, l) in f.list.iter().enumerate() {
                for st in [BOLD, REGULAR, SMALL] {
                    let mut c = Case::new("paint");
                    c.style = st;
                    c.cur = [i % 64, i % 32, 0];
                    c.pieces = vec![l.iter().map(|c| char::from_u32(*c).unwrap()).collect()];
                    v.push(c);
                }
            }
        }
    }
    if matches!(prop, "C01" | "C06" | "C10") {
        // every character on its own
        for u in 0..0x110000u32 {
            if u > 0x32000 && u % 97 != 0 {
                continue;
            }
            if let Some(ch) = char::from_u32(u) {
                let mut c = Case::new("paint");
                c.style = [BOLD, REGULAR, SMALL][u as usize % 3];
                c.pieces = vec![format!("{}a", ch)];
                v.push(c);
            }
        }
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C05" | "C04") {
        // one narrow and one wide glyph at every column, and at every row, of two clip rects
        for t in ["i", "W", "\u{1F638}", "A\u{9E45}", "\u{E000}"] {
            for st in [BOLD, REGULAR, SMALL] {
                for clip in [[0, 0, W, H], [33, 65, 290, 200]] {
                    for x in 0..340 {
                        for dy in [0usize, 20] {
                            let mut c = Case::new("paint");
                            c.style = st;
                            c.clip = clip;
                            c.cur = [x, clip[1] + dy, [0, 30][x % 2]];
                            c.pieces = vec![t.to_string()];
                            c.bg = [0, 1, 9][x % 3];
                            v.push(c);
                        }
                    }
                    for y in 0..540 {
                        let mut c = Case::new("paint");
                        c.style = st;
                        c.clip = clip;
                        c.cur = [clip[0] + y % 40, y, [0, 30][y % 2]];
                        c.pieces = vec![t.to_string(), "\n".into(), t.to_string()];
                        v.push(c);
                    }
                }
            }
        }
        // every glyph width in every clip width
        for t in ["i", "W", "\u{1F638}", "\u{9E45}", "\n"] {
            for w in 0..48 {
                for x in [0, 1, 31, 32, 300, 335] {
                    for h in [0, 1, 2, 5, 24, 31, 32, 33, 40] {
                        let mut c = Case::new("paint");
                        c.clip = [x, 100, x + w, 100 + h];
                        c.cur = [x, 100, 0];
                        c.style = [BOLD, REGULAR, SMALL][(x + w + h) % 3];
                        c.pieces = vec![t.to_string(), t.to_string()];
                        v.push(c);
                    }
                }
            }
        }
    }
    v
}

fn shrink(prop: &str, cx: &Ctx, c: Case) -> Case {
    let mut best = c;
    let t0 = Instant::now();
    let still = |c: &Case| check(prop, cx, c).is_err();
    loop {
        let mut cand: Vec<Case> = vec![];
        for i in 0..best.pieces.len() {
            let mut b = best.clone();
            b.pieces.remove(i);
            cand.push(b);
        }
        for i in 0..best.pieces.len() {
            let v: Vec<char> = best.pieces[i].chars().collect();
            if v.len() > 1 {
                for j in 0..v.len() {
                    let mut b = best.clone();
                    b.pieces[i] = v.iter().enumerate().filter(|(x, _)| *x != j).map(|(_, c)| *c).collect();
                    cand.push(b);
                }
            }
        }
        if best.bg > 1 {
            for g in 0..2 {
                let mut b = best.clone();
                b.bg = g;
                cand.push(b);
            }
        }
        for i in 0..3 {
            for v in [0, best.cur[i] / 2, best.cur[i].saturating_sub(1)] {
                if v < best.cur[i] {
                    let mut b = best.clone();
                    b.cur[i] = v;
                    cand.push(b);
                }
            }
        }
        let full = [0, 0, W, H];
        if best.kind == "paint" && best.clip != full {
            for i in 0..4 {
                if best.clip[i] != full[i] {
                    let mut b = best.clone();
                    b.clip[i] = full[i];
                    cand.push(b);
                }
            }
        }
        match cand.into_iter().find(|b| t0.elapsed() < Duration::from_secs(10) && still(b)) {
            Some(b) => best = b,
            None => return best,
        }
    }
}

/// how often the case has to be run again until it fails
fn again(prop: &str, cx: &Ctx, c: &Case, secs: u64) -> Option<u64> {
    let t0 = Instant::now();
    let mut n = 1;
    while t0.elapsed() < Duration::from_secs(secs) {
        if check(prop, cx, c).is_err() {
            return Some(n);
        }
        n += 1;
    }
    None
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let read = |p: &str| std::fs::read_to_string(p).unwrap();
    if a[1] == "replay" {
        let t = read(&a[3]);
        let prop = t.lines().find_map(|l| l.strip_prefix("property ")).unwrap().to_string();
        let mut cx = Ctx { fonts: Fonts::load(&read(&a[2])), dict: Dict { nums: vec![], strs: vec![] } };
        if t.lines().any(|l| l == "mode text") {
            // clusters are compared by their text, not by its hash
            cx.fonts.0.iter_mut().for_each(|f| f.strict = true);
        }
        let c = Case::parse(&t);
        let mut res = check(&prop, &cx, &c);
        if let Some(n) = t.lines().find_map(|l| l.strip_prefix("repeat ")) {
            let n: u64 = n.parse().unwrap();
            let t0 = Instant::now();
            let mut k = 1;
            while res.is_ok() && k < n && t0.elapsed() < Duration::from_secs(60) {
                res = check(&prop, &cx, &c);
                k += 1;
            }
            if res.is_err() {
                println!("on call {}", k);
            }
        }
        match res {
            Ok(()) => println!("holds on this input"),
            Err(e) => {
                println!("fails: {}", e);
                std::process::exit(1)
            }
        }
        return;
    }
    if a[1] == "collisions" {
        let fonts = Fonts::load(&read(&a[2])).0;
        let mut all: Vec<char> = fonts.iter().flat_map(|f| f.list.iter().flatten().map(|c| char::from_u32(*c).unwrap())).collect();
        all.sort();
        all.dedup();
        for f in &fonts {
            for (blk, (lo, hi, ls)) in f.lens.iter().enumerate() {
                for c in (*lo..=*hi).filter_map(char::from_u32) {
                    for l in ls {
                        let two: Vec<Vec<char>> = match l {
                            1 => vec![vec![c]],
                            _ => std::iter::once(vec![c]).chain(all.iter().map(|d| vec![c, *d])).collect(),
                        };
                        for k in two {
                            let cps: Vec<u32> = k.iter().map(|c| *c as u32).collect();
                            if let (None, Some(&g)) = (f.map.get(&cps), f.hmap.get(&(blk, murmur(&k, f.seed, 9).0))) {
                                println!("{} {:X?} taken for {:X?}", f.name, cps, f.list[g]);
                            }
                        }
                    }
                }
            }
        }
        return;
    }
    let prop = a[2].clone();
    let cx = Arc::new(Ctx { fonts: Fonts::load(&read(&a[3])), dict: load_dict(&read(&a[4])) });
    let seed: u64 = a[5].parse().unwrap();
    let secs: f64 = a[6].parse().unwrap();
    let out = a[7].clone();
    let nthreads = 8usize;
    let count = Arc::new(AtomicU64::new(0));
    let work = Arc::new(AtomicU64::new(0)); // cases with an effect
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let running: Arc<Vec<Mutex<(Option<Case>, Instant)>>> = Arc::new((0..nthreads).map(|_| Mutex::new((None, Instant::now()))).collect());
    let done = Arc::new(AtomicU64::new(0));
    let fx = Arc::new(fixed(&prop, &cx));
    let t0 = Instant::now();
    for id in 0..nthreads {
        let (cx, count, work, stop, found, running, done, fx, prop) = (cx.clone(), count.clone(), work.clone(), stop.clone(), found.clone(), running.clone(), done.clone(), fx.clone(), prop.clone());
        std::thread::spawn(move || {
            let mut r = Rng(seed.wrapping_mul(1000003) ^ (id as u64) << 48);
            let mut i = id;
            loop {
                let fixed_left = i < fx.len();
                if stop.load(Ordering::Relaxed) || (!fixed_left && t0.elapsed().as_secs_f64() > secs) {
                    break;
                }
                let c = if fixed_left { fx[i].clone() } else { gen(&prop, &mut r, &cx) };
                i += nthreads;
                {
                    let mut g = running[id].lock().unwrap();
                    *g = (Some(c.clone()), Instant::now());
                }
                let e = check(&prop, &cx, &c);
                running[id].lock().unwrap().0 = None;
                count.fetch_add(1, Ordering::Relaxed);
                if !c.pieces.concat().is_empty() && c.k().wide() || c.kind != "paint" {
                    work.fetch_add(1, Ordering::Relaxed);
                }
                if let Err(e) = e {
                    let mut f = found.lock().unwrap();
                    if f.is_none() {
                        *f = Some((c, e));
                    }
                    stop.store(true, Ordering::Relaxed);
                }
            }
            done.fetch_add(1, Ordering::Relaxed);
        });
    }
    let mut hang = None;
    while done.load(Ordering::Relaxed) < nthreads as u64 && hang.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for m in running.iter() {
            let g = m.lock().unwrap();
            if let (Some(c), t) = &*g {
                if t.elapsed() > Duration::from_secs(20) {
                    hang = Some(c.clone());
                }
            }
        }
        if found.lock().unwrap().is_some() && t0.elapsed().as_secs_f64() > secs + 60.0 {
            break;
        }
    }
    let sample = gen(&prop, &mut Rng(seed), &cx).text().replace('\n', "; ");
    println!("cases {} effective {} fixed {} seconds {:.1}", count.load(Ordering::Relaxed), work.load(Ordering::Relaxed), fx.len(), t0.elapsed().as_secs_f64());
    println!("sample {}", sample);
    if let Some(c) = hang {
        std::fs::write(&out, format!("property {}\n{}result does not end (20 s)\n", prop, c.text())).unwrap();
        println!("FAIL does not end");
        std::process::exit(1);
    }
    let f = found.lock().unwrap().clone();
    if let Some((c, e)) = f {
        // a result that depends on what ran before does not come back at once
        let (c, e, rep) = if check(&prop, &cx, &c).is_err() {
            let b = shrink(&prop, &cx, c.clone());
            match check(&prop, &cx, &b) {
                Err(e) => (b, e, String::new()),
                Ok(()) => (c, e, String::new()),
            }
        } else {
            let n = again(&prop, &cx, &c, 10).map_or(1_000_000, |n| n * 3);
            (c, e, format!("repeat {}\n", n))
        };
        std::fs::write(&out, format!("property {}\n{}{rep}result {}\n", prop, c.text(), e.replace('\n', " "))).unwrap();
        println!("FAIL {}", e);
        std::process::exit(1);
    }
    println!("OK");
}
