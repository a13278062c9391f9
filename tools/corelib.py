#!/usr/bin/env python3
"""corelib.py OUT.rs: put the bodies of core functions, from the rust-src of the toolchain that builds blitstr,
into contracts/corelib.rs. Prints a JSON object {"functions": [...], "rewrites": {what: count}}; exit 3 when the
source is absent or a function no longer has the expected text (then the contracts stay assumed)."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
# key: (file, text before the function, function header, rewrites). A rewrite is (what, pattern, replacement, times).
U = ("unsafe block", r'unsafe \{ ((?:[^{}]|\{[^{}]*\})*) \}', r'\1')
GH = "ghost argument"
B = {
 "binary_search_by": ("slice/mod.rs", "", "pub const fn binary_search_by<", [
    ("receiver named s", r'\bself\b', 's', 5),
    ("get_unchecked -> checked index", r'f\(unsafe \{ s\.get_unchecked\((\w+)\) \}\)', r'cmp_u32(s[\1], *x)', 2),
    ("select_unpredictable -> its definition", r'hint::select_unpredictable\(', 'select(', 1),
    ("== on Ordering", r'cmp == (\w+)', r'eq_ord(cmp, \1)', 3),
    ("bool as usize", r'\((eq_ord\(cmp, Less\))\) as usize', r'as_usize(\1)', 1),
    ("assert_unchecked -> obligation", r'unsafe \{ hint::assert_unchecked\((.*?)\) \};', lambda m: 'must(%s);' % m.group(1).replace('s.len()', 's.len()'), 2),
    ("loop contract", r'while size > 1 \{', '''#[verifier::loop_isolation(false)]
        while size > 1
            invariant size >= 1, base + size <= s@.len(),
              sorted(s@) ==> forall|i: int| 0 <= i < s@.len() && s@[i] == *x ==> base <= i < base + size
            decreases size
        {''', 1),
    ("proof step", r'(base = select)', r'''proof { if sorted(s@) { assert forall|i: int| 0 <= i < s@.len() && s@[i] == *x implies (if cmp is Greater { i < mid } else { mid <= i }) by { if i < mid { assert(s@[i] < s@[mid as int]); } if i > mid { assert(s@[mid as int] < s@[i]); } } } }
            \1''', 1)]),
 "utf8_first_byte": ("str/validations.rs", "", "const fn utf8_first_byte(", []),
 "utf8_acc_cont_byte": ("str/validations.rs", "", "const fn utf8_acc_cont_byte(", []),
 "next_code_point": ("str/validations.rs", "", "pub unsafe fn next_code_point<", [
    ("unwrap_unchecked -> unwrap, an obligation", r'unsafe \{ \*bytes\.next\(\)\.unwrap_unchecked\(\) \}', '*bytes.next().unwrap()', 3)]),
 "chars_next": ("str/iter.rs", "impl<'a> Iterator for Chars<'a>", "fn next(&mut self)", [
    ("map of a closure written out", r"unsafe \{ next_code_point\(&mut self\.iter\)\.map\(\|ch\| char::from_u32_unchecked\(ch\)\) \}",
     "match next_code_point(&mut self.iter, Ghost(t)) { Some(ch) => Some(from_u32_unchecked(ch)), None => None }", 1)]),
 "char_indices_next": ("str/iter.rs", "impl<'a> Iterator for CharIndices<'a>", "fn next(&mut self)", [
    (GH, r'self\.iter\.next\(\)', 'self.iter.next(Ghost(src.skip(pos)))', 1)]),
 "str_chars": ("str/mod.rs", "", "pub fn chars(&self)", [("slice iterator", r'self\.as_bytes\(\)\.iter\(\)', 'iter(self.as_bytes())', 1)]),
 "str_char_indices": ("str/mod.rs", "", "pub fn char_indices(&self)", [
    (GH, r'self\.chars\(\)', 'self.chars(Ghost(t))', 1)]),
 "is_char_boundary": ("str/mod.rs", "", "pub const fn is_char_boundary(&self", [
    ("method as function", r'self\.as_bytes\(\)\[index\]\.is_utf8_char_boundary\(\)', 'is_utf8_char_boundary(self.as_bytes()[index])', 1)]),
 "is_utf8_char_boundary": ("num/mod.rs", "", "const fn is_utf8_char_boundary(self)", [("receiver named x", r'\bself\b', 'x', 1)]),
 "range_from_get": ("str/traits.rs", "SliceIndex<str> for ops::RangeFrom<usize>", "fn get(self,", [
    (GH, r'is_char_boundary\(self\.start\)', 'is_char_boundary(self.start, Ghost(t))', 1),
    ("unsafe reborrow", r'unsafe \{ &\*self\.get_unchecked\(slice\) \}', 'self.get_unchecked(slice)', 1)]),
 "range_from_get_unchecked": ("str/traits.rs", "SliceIndex<str> for ops::RangeFrom<usize>", "unsafe fn get_unchecked(self,", [
    ("pointer length", r'\(slice as \*const \[u8\]\)\.len\(\)', 'slice.len()', 1),
    ("pointer range -> checked range", r'unsafe \{ \(self\.start\.\.len\)\.get_unchecked\(slice\) \}', 'slice.sub(self.start, len)', 1)]),
 "range_from_index": ("str/traits.rs", "SliceIndex<str> for ops::RangeFrom<usize>", "fn index(self,", [
    (GH, r'self\.get\(slice\)', 'self.get(slice, Ghost(t))', 1), ("path", r'super::', '', 1)]),
 "range_to_get": ("str/traits.rs", "SliceIndex<str> for ops::RangeTo<usize>", "fn get(self,", [
    (GH, r'is_char_boundary\(self\.end\)', 'is_char_boundary(self.end, Ghost(t))', 1),
    ("unsafe reborrow", r'unsafe \{ &\*self\.get_unchecked\(slice\) \}', 'self.get_unchecked(slice)', 1)]),
 "range_to_get_unchecked": ("str/traits.rs", "SliceIndex<str> for ops::RangeTo<usize>", "unsafe fn get_unchecked(self,", [
    ("pointer range -> checked range", r'unsafe \{ \(0\.\.self\.end\)\.get_unchecked\(slice\) \}', 'slice.sub(0, self.end)', 1)]),
 "range_to_index": ("str/traits.rs", "SliceIndex<str> for ops::RangeTo<usize>", "fn index(self,", [
    (GH, r'self\.get\(slice\)', 'self.get(slice, Ghost(t))', 1), ("path", r'super::', '', 1)]),
 "unchecked_funnel_shl": ("intrinsics/fallback.rs", "macro_rules! impl_funnel_shifts", "unsafe fn unchecked_funnel_shl(self,", [
    ("macro parameter", r'\$type::BITS', '32', 2),
    ("assume -> obligation", r'unsafe \{ super::assume\((.*?)\) \};', r'must(\1);', 1),
    ("receiver named this", r'\bself\b', 'this', 2),
    ("path", r'super::', '', 3),
    ("unsafe block", r'unsafe \{', '{', 1)]),
 "rotate_left": ("intrinsics/mod.rs", "", "pub const fn rotate_left<", [
    ("unsafe block", r'unsafe \{ (.*) \}', r'\1', 1),
    ("size of u32", r'mem::size_of::<T>\(\) as u32', '4u32', 1)]),
}
EXPR = {"CONT_MASK": ("str/validations.rs", r'const CONT_MASK: u8 = (.*?);')}
def fail(m): print(json.dumps({"error": m})); sys.exit(3)
def strip(t):
    return re.sub(r'^\s*//.*\n', '', re.sub(r'\s+// .*$', '', t, flags=re.M), flags=re.M)
def main():
    try: root = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True, timeout=60).stdout.strip()
    except Exception as e: fail(repr(e))
    root += "/lib/rustlib/src/rust/library/core/src/"
    cache, rew, fns = {}, {}, []
    def src(f):
        if f not in cache:
            try: cache[f] = open(root + f).read()
            except OSError as e: fail(str(e))
        return cache[f]
    def body(key):
        f, after, head, rw = B[key]
        t = src(f)
        i = t.find(after)
        i = t.find(head, i) if i >= 0 else -1
        if i < 0: fail("%s: not found in %s" % (key, f))
        # the body: the first brace after the parameter list at depth 0
        j, d = t.index("(", i), 0
        while True:
            c = t[j]
            d += (c == "(") - (c == ")")
            j += 1
            if d == 0: break
        j = t.index("{", j)
        k, d = j, 0
        # braces in comments and strings do not occur in these functions once comments are dropped
        txt = strip(t[j:j + 6000])
        for k, c in enumerate(txt):
            d += (c == "{") - (c == "}")
            if d == 0: break
        b = txt[1:k]
        for what, pat, rep, n in rw:
            b, m = re.subn(pat, rep, b)
            if m != n: fail("%s: rewrite '%s' applies %d times, not %d" % (key, what, m, n))
            if what not in (GH, "loop contract", "proof step"): rew[what] = rew.get(what, 0) + m
        fns.append("core %s %s" % (f, key))
        return b.strip()
    out = open(os.path.join(HERE, "..", "contracts", "corelib.rs")).read()
    out = re.sub(r'//@body (\w+)', lambda m: body(m.group(1)), out)
    def expr(m):
        f, pat = EXPR[m.group(1)]
        x = re.search(pat, src(f))
        if not x: fail(m.group(1))
        return x.group(1)
    out = re.sub(r'//@expr (\w+)', expr, out)
    open(sys.argv[1], "w").write(out)
    ver = subprocess.run(["rustc", "--version"], capture_output=True, text=True).stdout.strip()
    print(json.dumps({"toolchain": ver, "functions": fns, "rewrites": rew}))
main()
