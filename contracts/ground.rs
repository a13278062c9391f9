// Ground checker: a verified program, compiled and executed on every run over the numbers of
// the glyph tables.  `check_block` establishes what the axioms ax_* assume; `check_cluster`
// establishes that a listed cluster is found and has the bitmap of its sprite.
pub mod ground {
use vstd::prelude::*;
use super::bits::*;
use super::strs::*;
use super::libspec::*;
use super::tabspec::*;

pub fn sorted_exec(h: &[u32]) -> (r: bool)
    ensures r ==> sorted(h@)
{
    let mut i: usize = 1;
    if h.len() == 0 { return true; }
    while i < h.len()
        invariant 1 <= i <= h.len(), forall|a: int, b: int| 0 <= a < b < i ==> h@[a] < h@[b]
        decreases h.len() - i
    {
        if h[i - 1] >= h[i] { return false; }
        i += 1;
    }
    true
}
fn rec_exec(d: &[u32], o: usize, maxh: usize) -> (r: bool)
    requires maxh <= 255
    ensures r ==> rec_ok(d@, o as int, maxh as int)
{
    if o >= d.len() { return false; }
    let x = d[o];
    if x >= 0x1000000 { return false; }
    let w = ((x / 0x10000) % 0x100) as usize;
    let h = ((x / 0x100) % 0x100) as usize;
    let y = (x % 0x100) as usize;
    proof { reveal(hw); reveal(hh); reveal(hy); }
    if w < 1 || w > 32 || h < 1 || h + y > maxh { return false; }
    proof { assert(h * w <= 255 * 32) by(nonlinear_arith) requires h <= 255, w <= 32; }
    let a = h * w;
    if a > 1024 { return false; }
    (a + 31) / 32 <= d.len() - o - 1
}
pub fn check_block(h: &[u32], o: &[usize], d: &[u32], maxh: usize) -> (r: bool)
    ensures r ==> block_ok(h@, o@, d@, maxh as int)
{
    proof { reveal(block_ok); }
    if maxh > 255 || h.len() != o.len() || !sorted_exec(h) { return false; }
    let mut i: usize = 0;
    while i < o.len()
        invariant i <= o.len(), maxh <= 255, forall|k: int| 0 <= k < i ==> rec_ok(d@, #[trigger] o@[k] as int, maxh as int)
        decreases o.len() - i
    {
        if !rec_exec(d, o[i], maxh) { return false; }
        i += 1;
    }
    true
}
/// the murmur3 hash of a cluster, and its length in bytes
pub fn hash_exec(s: &[char], seed: u32) -> (r: (u32, u32))
    requires s.len() < 1000
    ensures r.0 == m3_cluster(s@, seed), r.1 == ulen(s@)
{
    let mut h = seed;
    let mut n: u32 = 0;
    proof { m3_0(s@, seed); ulen_0(s@); }
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s.len() < 1000, h == m3_chars(s@.take(i as int), seed), n == ulen(s@.take(i as int)), n <= 4 * i
        decreases s.len() - i
    {
        proof { reveal(m3_mix); m3_step(s@, i as int, seed); ulen_step(s@, i as int); }
        let c = s[i] as u32;
        let k1 = c.wrapping_mul(0xcc9e2d51u32);
        let k2 = (k1 << 15u32) | (k1 >> 17u32);
        let k3 = k2.wrapping_mul(0x1b873593u32);
        let h1 = h ^ k3;
        let h2 = (h1 << 13u32) | (h1 >> 19u32);
        h = h2.wrapping_mul(5u32).wrapping_add(0xe6546b64u32);
        n = n + (if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4u32 });
        i += 1;
    }
    proof { reveal(m3_cluster); assert(s@.take(s@.len() as int) == s@); }
    let g = h ^ n;
    let a = g ^ (g >> 16u32);
    let b = a.wrapping_mul(0x85ebca6bu32);
    let c = b ^ (b >> 13u32);
    let e = c.wrapping_mul(0xc2b2ae35u32);
    (e ^ (e >> 16u32), n)
}
/// The cluster is in the table, with a glyph of this size, offset and these pixels
pub open spec fn shows(hs: Seq<u32>, os: Seq<usize>, d: Seq<u32>, seed: u32, s: Seq<char>, w: int, h: int, y: int, ink: Seq<bool>) -> bool {
    exists|o: int| #[trigger] glyph_is(d, o, w, h, y, ink) && find(hs, os, seed, s, s.len() as int) == Some((o, s.len() as int))
}
pub open spec fn glyph_is(d: Seq<u32>, o: int, w: int, h: int, y: int, ink: Seq<bool>) -> bool {
    hw(d[o]) == w && hh(d[o]) == h && hy(d[o]) == y && forall|j: int, r: int| 0 <= j < w && 0 <= r < h ==> #[trigger] gpix_at(d, o, j, r) == ink[r * w + j]
}
/// The first block whose range has c (the dispatch of fonts_spec.rs: listed_*, lookup_*)
pub fn pick(lo: &[u32], hi: &[u32], c: u32) -> (r: Option<usize>)
    requires lo.len() == hi.len()
    ensures
        r is None ==> forall|i: int| 0 <= i < lo.len() ==> !(#[trigger] lo@[i] <= c <= hi@[i]),
        r is Some ==> r.unwrap() < lo.len() && lo@[r.unwrap() as int] <= c <= hi@[r.unwrap() as int] && forall|i: int| 0 <= i < r.unwrap() ==> !(#[trigger] lo@[i] <= c <= hi@[i])
{
    let mut k: usize = 0;
    while k < lo.len()
        invariant k <= lo.len(), lo.len() == hi.len(), forall|i: int| 0 <= i < k ==> !(#[trigger] lo@[i] <= c <= hi@[i])
        decreases lo.len() - k
    {
        if lo[k] <= c && c <= hi[k] { return Some(k); }
        k += 1;
    }
    None
}
/// longest: the longest cluster length tried in this block
pub fn check_cluster(longest: usize, hs: &[u32], os: &[usize], d: &[u32], maxh: usize, seed: u32, s: &[char], w: usize, h: usize, y: usize, ink: &[bool]) -> (r: bool)
    requires block_ok(hs@, os@, d@, maxh as int), s.len() < 1000
    ensures r ==> 0 < s.len() <= longest && shows(hs@, os@, d@, seed, s@, w as int, h as int, y as int, ink@)
{
    if s.len() == 0 || s.len() > longest { return false; }
    proof { assert(s@.take(s@.len() as int) == s@); find_is(hs@, os@, d@, maxh as int, seed, s@, s@.len() as int); }
    let (key, _) = hash_exec(s, seed);
    let i = match bsearch(hs, &key) { Ok(i) => i, Err(_) => { return false; } };
    proof { reveal(block_ok); }
    let o = os[i];
    assert(find(hs@, os@, seed, s@, s@.len() as int) == Some((o as int, s@.len() as int)));
    if glyph_exec(d, o, maxh, w, h, y, ink) { true } else { false }
}
fn glyph_exec(d: &[u32], o: usize, maxh: usize, w: usize, h: usize, y: usize, ink: &[bool]) -> (r: bool)
    requires rec_ok(d@, o as int, maxh as int)
    ensures r ==> glyph_is(d@, o as int, w as int, h as int, y as int, ink@)
{
    let x = d[o];
    proof { reveal(hw); reveal(hh); reveal(hy); }
    if ((x / 0x10000) % 0x100) as usize != w || ((x / 0x100) % 0x100) as usize != h || (x % 0x100) as usize != y { return false; }
    proof { assert(h * w <= 1024); }
    if ink.len() != h * w { return false; }
    let mut r: usize = 0;
    while r < h
        invariant
            r <= h, rec_ok(d@, o as int, maxh as int), w == hw(d@[o as int]), h == hh(d@[o as int]), 1 <= w <= 32, h * w <= 1024, ink.len() == h * w,
            forall|j: int, q: int| 0 <= j < w && 0 <= q < r ==> #[trigger] gpix_at(d@, o as int, j, q) == ink@[q * w + j]
        decreases h - r
    {
        proof {
            assert((r + 1) * w <= h * w) by(nonlinear_arith) requires r + 1 <= h, 0 <= w;
            assert((r + 1) * w == r * w + w) by(nonlinear_arith);
            assert(0 <= r * w) by(nonlinear_arith) requires 0 <= r, 0 <= w;
        }
        let mut j: usize = 0;
        while j < w
            invariant
                j <= w, r < h, rec_ok(d@, o as int, maxh as int), w == hw(d@[o as int]), h == hh(d@[o as int]), 1 <= w <= 32, h * w <= 1024, ink.len() == h * w,
                0 <= r * w, r * w + w <= h * w,
                forall|a: int| 0 <= a < j ==> #[trigger] gpix_at(d@, o as int, a, r as int) == ink@[r * w + a]
            decreases w - j
        {
            let k = r * w + (w - 1 - j);
            proof {
                assert(k < h * w); assert(k / 32 < (h * w + 31) / 32);
                assert(hh(d@[o as int]) * hw(d@[o as int]) == h * w);
                assert(o + 1 + (h * w + 31) / 32 <= d.len());
            }
            let word = d[o + (1 + k / 32)];
            let b = (word >> ((31 - k % 32) as u32)) & 1 == 1;
            proof { reveal(gpix_at); reveal(bit); }
            assert(gpix_at(d@, o as int, j as int, r as int) == b);
            if b != ink[r * w + j] { return false; }
            j += 1;
        }
        r += 1;
    }
    true
}
}
} // verus!

// ---- glue (not verified): reads the numbers and calls the verified functions
use std::collections::HashMap;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut u32s: HashMap<String, Vec<u32>> = HashMap::new();
    let mut sizes: HashMap<String, Vec<usize>> = HashMap::new();
    for l in std::fs::read_to_string(&a[1]).unwrap().lines() {
        let p: Vec<&str> = l.split(' ').collect();
        let key = format!("{}.{}", p[1], p[2]);
        let n = p[5..].len();
        match p[4].parse::<usize>() { Ok(k) if k != n => { println!("BAD table {} has {} of {} entries", key, n, k); return; } _ => {} }
        if p[3] == "u32" { u32s.insert(key, p[5..].iter().map(|x| x.parse().unwrap()).collect()); }
        else { sizes.insert(key, p[5..].iter().map(|x| x.parse().unwrap()).collect()); }
    }
    // rows: "F font height seed", then the dump
    let (mut heights, mut seeds) = (HashMap::new(), HashMap::new());
    let mut ok: HashMap<(String, String), bool> = HashMap::new();
    let mut blocks: HashMap<String, (Vec<u32>, Vec<u32>, Vec<(String, usize)>)> = HashMap::new();
    let (mut nb, mut ng, mut bad) = (0, 0, 0);
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        let p: Vec<&str> = l.split(' ').collect();
        let m = format!("fonts_{}", p[1].to_lowercase());
        match p[0] {
            "H" => { heights.insert(m, p[2].parse::<usize>().unwrap()); }
            "S" => { seeds.insert(m, p[2].parse::<u32>().unwrap()); }
            "L" => {
                let (lo, hi) = (u32::from_str_radix(p[2], 16).unwrap(), u32::from_str_radix(p[3], 16).unwrap());
                let e = blocks.entry(m.clone()).or_default();
                e.0.push(lo); e.1.push(hi); e.2.push((p[5].to_string(), p[4].split(',').map(|x| x.parse().unwrap()).max().unwrap()));
                let (h, o, d) = (u32s.get(&format!("{}.HASH_{}", m, p[5])), sizes.get(&format!("{}.OFFSET_{}", m, p[5])), u32s.get(&format!("{}.DATA", m)));
                let r = match (h, o, d) {
                    (Some(h), Some(o), Some(d)) => ground::check_block(h, o, d, heights[&m]),
                    _ => { println!("BAD no table read for {} {}", p[1], p[5]); return; }
                };
                nb += 1;
                if !r { println!("FAILBLOCK {} {}", p[1], p[5]); }
                ok.insert((m.clone(), p[5].to_string()), r);
            }
            "G" => {
                let s: Vec<char> = p[2].split('-').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect();
                let c = s[0] as u32;
                let e = &blocks[&m];
                let (b, longest) = &e.2[ground::pick(&e.0, &e.1, c).unwrap()];
                ng += 1;
                let r = ok[&(m.clone(), b.clone())] && {
                    let ink: Vec<bool> = p[6].bytes().map(|x| x == b'1').collect();
                    ground::check_cluster(*longest, &u32s[&format!("{}.HASH_{}", m, b)], &sizes[&format!("{}.OFFSET_{}", m, b)], &u32s[&format!("{}.DATA", m)], heights[&m], seeds[&m], &s, p[3].parse().unwrap(), p[4].parse().unwrap(), p[5].parse().unwrap(), &ink)
                };
                if !r { bad += 1; if bad <= 20 { println!("FAILGLYPH {} {}", p[1], p[2]); } }
            }
            _ => {}
        }
    }
    println!("DONE blocks {} glyphs {} bad {}", nb, ng, bad);
}
