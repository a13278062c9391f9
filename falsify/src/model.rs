//! Independent reference for what painting does, over the font sources (sprite sheets and
//! cluster lists), not over the generated tables.
use std::collections::HashMap;

pub const W: usize = 336;
pub const H: usize = 536;
pub const WPL: usize = 11;
pub const SIZE: usize = 5896;

#[derive(Clone, Debug)]
pub struct Glyph {
    pub w: usize,
    pub h: usize,
    pub y: usize,
    pub rows: Vec<u32>, // bit j: column j from the left
}
pub struct Font {
    pub name: String,
    pub height: usize,
    pub seed: u32,
    pub strict: bool, // clusters are told apart by their text, not by its hash
    pub map: HashMap<Vec<u32>, usize>,
    pub hmap: HashMap<(usize, u32), usize>, // by block and hash
    pub glyphs: Vec<Glyph>,
    pub list: Vec<Vec<u32>>,
    pub lens: Vec<(u32, u32, Vec<usize>)>, // block range, cluster lengths, longest first
}
impl Font {
    /// glyph for the front of s and how many chars it takes
    pub fn lookup(&self, s: &[char]) -> Option<(&Glyph, usize)> {
        let c = *s.first()? as u32;
        let blk = self.lens.iter().position(|b| b.0 <= c && c <= b.1)?;
        let ls = &self.lens[blk].2;
        for &l in ls {
            let n = l.min(s.len());
            let g = if self.strict {
                self.map.get(&s[..n].iter().map(|c| *c as u32).collect::<Vec<u32>>())
            } else {
                self.hmap.get(&(blk, murmur(&s[..n], self.seed, n).0))
            };
            if let Some(&g) = g {
                return Some((&self.glyphs[g], n));
            }
        }
        None
    }
}
pub const EMOJI: usize = 0;
pub const BOLD: usize = 1;
pub const REGULAR: usize = 2;
pub const SMALL: usize = 3;
pub const HANZI: usize = 4;
pub struct Fonts(pub Vec<Font>);

impl Fonts {
    /// lines "B font height", "L font lo hi lens", "G font cps w h y bits"
    pub fn load(text: &str) -> Fonts {
        let names = ["Emoji", "Bold", "Regular", "Small", "Hanzi"];
        let mut f: Vec<Font> = names
            .iter()
            .map(|n| Font { name: n.to_string(), height: 0, seed: 0, strict: false, map: HashMap::new(), hmap: HashMap::new(), glyphs: vec![], list: vec![], lens: vec![] })
            .collect();
        for l in text.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            let k = names.iter().position(|n| *n == p[1]).unwrap();
            match p[0] {
                "S" => f[k].seed = p[2].parse().unwrap(),
                "H" => f[k].height = p[2].parse().unwrap(),
                "L" => f[k].lens.push((
                    u32::from_str_radix(p[2], 16).unwrap(),
                    u32::from_str_radix(p[3], 16).unwrap(),
                    p[4].split(',').map(|x| x.parse().unwrap()).collect(),
                )),
                "G" => {
                    let cps: Vec<u32> = p[2].split('-').map(|x| u32::from_str_radix(x, 16).unwrap()).collect();
                    let (w, h, y): (usize, usize, usize) = (p[3].parse().unwrap(), p[4].parse().unwrap(), p[5].parse().unwrap());
                    let b = p[6].as_bytes();
                    let rows = (0..h).map(|r| (0..w).fold(0u32, |a, j| a | (((b[r * w + j] == b'1') as u32) << j))).collect();
                    let id = f[k].glyphs.len();
                    f[k].glyphs.push(Glyph { w, h, y, rows });
                    f[k].map.insert(cps.clone(), id);
                    let key: Vec<char> = cps.iter().map(|c| char::from_u32(*c).unwrap()).collect();
                    let key = murmur(&key, f[k].seed, key.len()).0;
                    let blk = f[k].lens.iter().position(|b| b.0 <= cps[0] && cps[0] <= b.1).unwrap();
                    f[k].hmap.insert((blk, key), id);
                    f[k].list.push(cps);
                }
                _ => panic!("bad line"),
            }
        }
        Fonts(f)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Clip {
    pub x0: usize,
    pub y0: usize,
    pub x1: usize,
    pub y1: usize,
}
impl Clip {
    pub fn wide(&self) -> bool {
        self.y1 <= H && self.x1 <= W && self.x0 < self.x1
    }
    pub fn ok(&self) -> bool {
        self.wide() && self.y0 < self.y1
    }
    pub fn has(&self, x: usize, y: usize) -> bool {
        self.x0 <= x && x < self.x1 && self.y0 <= y && y < self.y1
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cur {
    pub x: usize,
    pub y: usize,
    pub lh: usize,
}
pub enum Try {
    NoGlyph,
    NoRoom(Cur),
    Put(usize, usize, Cur, usize), // x, y of the glyph, cursor, chars
}
fn next_line(k: &Clip, c: Cur) -> Cur {
    Cur { x: k.x0, y: c.y.saturating_add(c.lh.max(24)).saturating_add(1), lh: 0 }
}
fn attempt<'a>(f: &'a Font, k: &Clip, c: Cur, s: &[char]) -> (Try, Option<&'a Glyph>) {
    if !k.wide() {
        return (Try::NoRoom(c), None);
    }
    let (g, n) = match f.lookup(s) {
        None => return (Try::NoGlyph, None),
        Some(x) => x,
    };
    if k.x0 + 1 + g.w > k.x1 {
        return (Try::NoRoom(c), None);
    }
    let mut c = c;
    c.x = c.x.max(k.x0);
    if c.x.saturating_add(g.w + 3) >= k.x1 {
        c = next_line(k, c);
    }
    let y = c.y.saturating_add(g.y);
    if y > k.y1 {
        return (Try::NoRoom(c), None);
    }
    (Try::Put(c.x + 1, y, Cur { x: c.x.saturating_add(g.w + 3), y: c.y, lh: c.lh.max(f.height) }, n), Some(g))
}
pub struct Painted {
    pub mask: Vec<u32>,     // pixels to flip
    pub cur: Cur,
    pub stuck: bool,        // ran out of room (text left over)
    pub cuts: Vec<usize>,   // char index after each step
}
pub fn paint(f: &Fonts, k: &Clip, c: Cur, style: usize, s: &[char]) -> Painted {
    let latin = &f.0[style];
    let mut p = Painted { mask: vec![0; SIZE], cur: c, stuck: false, cuts: vec![] };
    let mut i = 0;
    while i < s.len() {
        let rest = &s[i..];
        if rest[0] == '\n' {
            p.cur = next_line(k, p.cur);
            i += 1;
            p.cuts.push(i);
            continue;
        }
        let mut n = 0;
        let mut done = false;
        for (font, text, adv) in [
            (&f.0[EMOJI], rest, 0),
            (latin, rest, 0),
            (&f.0[HANZI], rest, 0),
            (latin, &['\u{FFFD}'][..], 1),
        ] {
            match attempt(font, k, p.cur, text) {
                (Try::NoGlyph, _) => continue,
                (Try::NoRoom(c2), _) => {
                    p.cur = c2;
                    n = adv;
                }
                (Try::Put(x, y, c2, m), Some(g)) => {
                    blit(&mut p.mask, k, g, x, y);
                    p.cur = c2;
                    n = if adv == 1 { 1 } else { m };
                }
                _ => unreachable!(),
            }
            done = true;
            break;
        }
        if !done || n == 0 {
            p.stuck = true;
            return p;
        }
        i += n;
        p.cuts.push(i);
    }
    p
}
fn blit(mask: &mut [u32], k: &Clip, g: &Glyph, x: usize, y: usize) {
    for r in 0..g.h {
        let yy = y + r;
        if yy < k.y0 || yy >= k.y1 {
            continue;
        }
        for j in 0..g.w {
            let xx = x + j;
            if (g.rows[r] >> j) & 1 == 1 && xx >= k.x0 && xx < k.x1 {
                mask[yy * WPL + xx / 32] ^= 1 << (xx % 32);
            }
        }
    }
}
pub fn clear(fb: &mut [u32], k: &Clip) {
    if !k.ok() {
        return;
    }
    for y in k.y0..k.y1 {
        for x in k.x0..k.x1 {
            fb[y * WPL + x / 32] |= 1 << (x % 32);
        }
    }
}
fn mix(h: u32, block: u32) -> u32 {
    let mut k = (block as u64 * 0xcc9e2d51u64) as u32;
    k = (k << 15) | (k >> 17);
    k = (k as u64 * 0x1b873593u64) as u32;
    let h = h ^ k;
    let h = (h << 13) | (h >> 19);
    (h as u64 * 5 + 0xe6546b64u64) as u32
}
fn fin(mut h: u32) -> u32 {
    h ^= h >> 16;
    h = (h as u64 * 0x85ebca6bu64) as u32;
    h ^= h >> 13;
    h = (h as u64 * 0xc2b2ae35u64) as u32;
    h ^ (h >> 16)
}
/// Murmur3 (x86, 32 bit) with each char as one block
pub fn murmur(s: &[char], seed: u32, limit: usize) -> (u32, usize) {
    let t = &s[..limit.min(s.len())];
    let mut h = seed;
    let mut n = 0;
    for c in t {
        n += c.len_utf8();
        h = mix(h, *c as u32);
    }
    (fin(h ^ n as u32), n)
}
/// the same over words, with their number as the length
#[allow(dead_code)]
pub fn murmur_words(s: &[u32], seed: u32) -> u32 {
    fin(s.iter().fold(seed, |h, w| mix(h, *w)) ^ s.len() as u32)
}
