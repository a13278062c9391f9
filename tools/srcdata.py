"""Read the font sources of blitstr (codegen/config.json and codegen/src_data): the
sprite sheets, the grapheme cluster lists and the alias lists.  Independent of the Go
code generator: it is what the tables in src/fonts/*.rs are checked against.

  srcdata.py spec  REPO OUT.rs    lookup rules (first-character blocks and cluster lengths)
  srcdata.py dump  REPO OUT.txt   every cluster with its bitmap
"""
import hashlib, json, os, struct, sys, zlib

# Unicode blocks (https://www.unicode.org/Public/UCD/latest/ucd/Blocks.txt) and the
# name each has in the generated tables
BLOCKS = [
    (0x0000, 0x007F, "BASIC_LATIN"), (0x0080, 0x00FF, "LATIN_1_SUPPLEMENT"),
    (0x0100, 0x017F, "LATIN_EXTENDED_A"), (0x2000, 0x206F, "GENERAL_PUNCTUATION"),
    (0x20A0, 0x20CF, "CURRENCY_SYMBOLS"), (0x2100, 0x214F, "LETTERLIKE_SYMBOLS"),
    (0x2190, 0x21FF, "ARROWS"), (0x2300, 0x23FF, "MISCELLANEOUS_TECHNICAL"),
    (0x2460, 0x24FF, "ENCLOSED_ALPHANUMERICS"), (0x25A0, 0x25FF, "GEOMETRIC_SHAPES"),
    (0x2600, 0x26FF, "MISCELLANEOUS_SYMBOLS"), (0x2700, 0x27BF, "DINGBATS"),
    (0x2900, 0x297F, "SUPPLEMENTAL_ARROWS_B"), (0x2B00, 0x2BFF, "MISCELLANEOUS_SYMBOLS_AND_ARROWS"),
    (0x3000, 0x303F, "CJK_SYMBOLS_AND_PUNCTUATION"), (0x3200, 0x32FF, "ENCLOSED_CJK_LETTERS_AND_MONTHS"),
    (0x3400, 0x4DBF, "CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A"), (0x4E00, 0x9FFF, "CJK_UNIFIED_IDEOGRAPHS"),
    (0xE000, 0xF8FF, "PRIVATE_USE_AREA"), (0xFFF0, 0xFFFF, "SPECIALS"),
    (0xFF00, 0xFFEF, "HALFWIDTH_AND_FULLWIDTH_FORMS"), (0x1F000, 0x1F02F, "MAHJONG_TILES"),
    (0x1F0A0, 0x1F0FF, "PLAYING_CARDS"), (0x1F100, 0x1F1FF, "ENCLOSED_ALPHANUMERIC_SUPPLEMENT"),
    (0x1F200, 0x1F2FF, "ENCLOSED_IDEOGRAPHIC_SUPPLEMENT"), (0x1F300, 0x1F5FF, "MISCELLANEOUS_SYMBOLS_AND_PICTOGRAPHS"),
    (0x1F600, 0x1F64F, "EMOTICONS"), (0x1F680, 0x1F6FF, "TRANSPORT_AND_MAP_SYMBOLS"),
    (0x1F780, 0x1F7FF, "GEOMETRIC_SHAPES_EXTENDED"), (0x1F900, 0x1F9FF, "SUPPLEMENTAL_SYMBOLS_AND_PICTOGRAPHS"),
    (0x1FA70, 0x1FAFF, "SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A"), (0x20000, 0x2A6DF, "CJK_UNIFIED_IDEOGRAPHS_EXTENSION_B"),
    (0x2A700, 0x2B73F, "CJK_UNIFIED_IDEOGRAPHS_EXTENSION_C"), (0x2B740, 0x2B81F, "CJK_UNIFIED_IDEOGRAPHS_EXTENSION_D"),
    (0x2B820, 0x2CEAF, "CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E"), (0x2CEB0, 0x2EBEF, "CJK_UNIFIED_IDEOGRAPHS_EXTENSION_F"),
    (0x2F800, 0x2FA1F, "CJK_COMPATIBILITY_IDEOGRAPHS_SUPPLEMENT"), (0x30000, 0x3134F, "CJK_UNIFIED_IDEOGRAPHS_EXTENSION_G"),
]


def block(c):
    for lo, hi, n in BLOCKS:
        if lo <= c <= hi:
            return lo, hi, n
    raise SystemExit("codepoint %X is in no known block" % c)


def read_png(path):
    """rows of 'is ink' booleans: red channel (premultiplied by alpha) is zero"""
    b = open(path, "rb").read()
    assert b[:8] == b"\x89PNG\r\n\x1a\n"
    i, idat, pal, trns = 8, b"", None, b""
    while i < len(b):
        n, t = struct.unpack(">I4s", b[i:i + 8])
        d = b[i + 8:i + 8 + n]
        if t == b"IHDR":
            w, h, depth, ct, _, _, il = struct.unpack(">IIBBBBB", d)
            assert il == 0
        elif t == b"PLTE":
            pal = [d[k:k + 3] for k in range(0, n, 3)]
        elif t == b"tRNS":
            trns = d
        elif t == b"IDAT":
            idat += d
        i += 12 + n
    raw = zlib.decompress(idat)
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
    stride = (w * ch * depth + 7) // 8
    bpp = max(1, ch * depth // 8)
    prev = bytearray(stride)
    rows, p = [], 0
    for _ in range(h):
        f = raw[p]
        line = bytearray(raw[p + 1:p + 1 + stride])
        p += 1 + stride
        if f == 1:
            for k in range(bpp, stride):
                line[k] = (line[k] + line[k - bpp]) & 255
        elif f == 2:
            for k in range(stride):
                line[k] = (line[k] + prev[k]) & 255
        elif f == 3:
            for k in range(stride):
                a = line[k - bpp] if k >= bpp else 0
                line[k] = (line[k] + (a + prev[k]) // 2) & 255
        elif f == 4:
            for k in range(stride):
                a = line[k - bpp] if k >= bpp else 0
                c = prev[k - bpp] if k >= bpp else 0
                q = a + prev[k] - c
                pa, pb, pc = abs(q - a), abs(q - prev[k]), abs(q - c)
                pr = a if pa <= pb and pa <= pc else prev[k] if pb <= pc else c
                line[k] = (line[k] + pr) & 255
        prev = line
        out = []
        for x in range(w):
            def samp(c):
                if depth == 8:
                    return line[x * ch + c]
                if depth == 16:
                    return (line[2 * (x * ch + c)] << 8) | line[2 * (x * ch + c) + 1]
                bit = (x * ch + c) * depth
                return (line[bit // 8] >> (8 - depth - bit % 8)) & ((1 << depth) - 1)
            if ct == 3:
                v = samp(0)
                r = pal[v][0]
                a = trns[v] if v < len(trns) else 255
            elif ct in (0, 2):
                r, a = samp(0), 1
                assert not trns
            else:
                r, a = samp(0), samp(ch - 1)
            out.append(r == 0 or a == 0)
        rows.append(out)
    return rows


def hexgc(s):
    return tuple(int(x, 16) for x in s.split("-"))


def clean_lines(path):
    for l in open(path, encoding="utf-8"):
        l = l.split("#", 1)[0].strip()
        if l:
            yield l


def fonts(repo):
    cg = os.path.join(repo, "codegen")
    conf = json.load(open(os.path.join(cg, "config.json")))
    for g in conf["glyphSets"]:
        cells = []
        if g["indexType"] == "txt-row-major":
            for i, l in enumerate(clean_lines(os.path.join(cg, g["index"]))):
                cells.append((hexgc(l), i // g["cols"], i % g["cols"]))
        else:
            for m in json.load(open(os.path.join(cg, g["index"])))["map"]:
                cells.append((hexgc(m["hex"]), m["row"], m["col"]))
        aliases = []
        if g["aliases"]:
            for l in clean_lines(os.path.join(cg, g["aliases"])):
                p = l.split(" ")
                if len(p) == 2:
                    aliases.append((hexgc(p[0]), hexgc(p[1])))
        yield g, cells, aliases


def lead(rows, limit):
    n = 0
    while n < limit and n < len(rows) and not any(rows[n]):
        n += 1
    return n


def glyph(g, ink, row, col):
    grid = g["size"] + g["gutter"]
    b = g["border"]
    m = [[ink[y][x] for x in range(b + col * grid, (col + 1) * grid)] for y in range(b + row * grid, (row + 1) * grid)]
    s = g["size"]
    if g["name"] in ("Bold", "Regular", "Small"):
        lim = (s // 2 - 1, s // 2 - 2) if (row, col) == (0, 2) else (s, s)
    elif g["glyphTrim"] == "CJK":
        lim = (0, 0)
    else:
        lim = (s, s)
    tb, lr = lim
    t = list(zip(*m))
    t = t[lead(t, lr):]
    t = t[::-1]
    t = t[lead(t, lr):][::-1]
    m = [list(r) for r in zip(*t)]
    y = lead(m, tb)
    m = m[y:][::-1]
    m = m[lead(m, tb):][::-1]
    return len(m[0]), len(m), y, m


def clusters(repo):
    """font name -> list of (codepoints, block, w, h, yoff, rows)"""
    out = {}
    for g, cells, aliases in fonts(repo):
        ink = read_png(os.path.join(repo, "codegen", g["sprites"]))
        d = {}
        for cps, row, col in cells:
            d[cps] = glyph(g, ink, row, col)
        for canon, alias in aliases:
            d[alias] = d[canon]
        out[g["name"]] = (g, d)
    return out


def lookup_rules(repo):
    """font name -> sorted [(lo, hi, block, [lengths descending])]"""
    out = {}
    for g, cells, aliases in fonts(repo):
        r = {}
        for cps in [c[0] for c in cells] + [a[1] for a in aliases]:
            r.setdefault(block(cps[0]), set()).add(len(cps))
        out[g["name"]] = (g, sorted((lo, hi, n, sorted(ls, reverse=True)) for (lo, hi, n), ls in r.items()))
    return out


def spec(repo):
    """fonts_spec.rs: for each font, which table a cluster is looked up in and with which
    cluster lengths (longest first), as a specification over the opaque tables"""
    o = ["// GENERATED by tools/srcdata.py from codegen/config.json and codegen/src_data",
         "pub mod fontspec {", "use vstd::prelude::*;", "use super::libspec::*;", "use super::strs::*;", "use super::model0::*;", "use super::tabspec::*;", "use super::tbl;",
         "use crate::fonts::{GlyphSet, GlyphData};"]
    rules = lookup_rules(repo)
    names = list(rules)
    for n, (g, rs) in rules.items():
        m = n.lower()
        for lo, hi, b, ls in rs:
            h, f = f"tbl::fonts_{m}_HASH_{b}()", f"tbl::fonts_{m}_OFFSET_{b}()"
            body = f"find({h}, {f}, {g['m3Seed']}, s, {ls[-1]})"
            for l in ls[-2::-1]:
                body = f"{{ let r = find({h}, {f}, {g['m3Seed']}, s, {l}); if r is Some {{ r }} else {{ {body} }} }}"
            o.append(f"pub open spec fn blk_{m}_{b}(s: Seq<char>) -> Option<(int, int)> {{ {body} }}")
            o.append(f"// discharged by the ground check on the tables of the source tree")
            o.append(f"pub broadcast axiom fn ax_{m}_{b}(s: Seq<char>, k: int)\n    ensures #[trigger] find({h}, {f}, {g['m3Seed']}, s, k) == find({h}, {f}, {g['m3Seed']}, s, k), block_ok({h}, {f}, data(GlyphSet::{n}), {g['size']});")
        o.append(f"#[verifier::opaque]\npub open spec fn lookup_{m}(s: Seq<char>) -> Option<(int, int)> {{\n    if s.len() == 0 {{ None }} else {{ let c = s[0] as u32;")
        for lo, hi, b, ls in rs:
            o.append(f"    if 0x{lo:X} <= c <= 0x{hi:X} {{ blk_{m}_{b}(s) }} else")
        o.append("    { None } }\n}")
        # C10: a listed cluster (found at its own length in its block, ground check) is what the lookup of the text made of it returns
        o.append(f"pub open spec fn listed_{m}(s: Seq<char>, o: int) -> bool {{\n    s.len() > 0 && {{ let c = s[0] as u32;")
        for lo, hi, b, ls in rs:
            h, f = f"tbl::fonts_{m}_HASH_{b}()", f"tbl::fonts_{m}_OFFSET_{b}()"
            o.append(f"    if 0x{lo:X} <= c <= 0x{hi:X} {{ s.len() <= {ls[0]} && find({h}, {f}, {g['m3Seed']}, s, s.len() as int) == Some((o, s.len() as int)) }} else")
        o.append("    { false } }\n}")
        o.append(f"pub proof fn shown_{m}(s: Seq<char>, o: int) requires listed_{m}(s, o) ensures lookup_{m}(s) == Some((o, s.len() as int))\n{{ reveal(lookup_{m}); broadcast use find_full; }}")
        o.append(f"proof fn ok_{m}(s: Seq<char>) ensures found_ok(lookup_{m}(s), s, data(GlyphSet::{n}), {g['size']})")
        o.append(f"{{ reveal(lookup_{m}); broadcast use {{find_ok, " + ", ".join(f"ax_{m}_{b}" for _, _, b, _ in rs) + "}; }")
    o.append("pub open spec fn lookup(g: GlyphSet, s: Seq<char>) -> Option<(int, int)> { match g {")
    o += [f"    GlyphSet::{n} => lookup_{n.lower()}(s)," for n in names] + ["} }"]
    o.append("pub open spec fn data(g: GlyphSet) -> Seq<u32> { match g {")
    o += [f"    GlyphSet::{n} => tbl::fonts_{n.lower()}_DATA()," for n in names] + ["} }"]
    o.append("pub open spec fn max_height(g: GlyphSet) -> int { match g {")
    o += [f"    GlyphSet::{n} => {g['size']}," for n, (g, _) in rules.items()] + ["} }"]
    o.append("pub open spec fn gd_is(d: GlyphData, g: GlyphSet, o: int) -> bool { match d {")
    o += [f"    GlyphData::{n}(p) => g == GlyphSet::{n} && p == o," for n in names] + ["} }"]
    o.append("pub open spec fn gd_set(d: GlyphData) -> GlyphSet { match d {")
    o += [f"    GlyphData::{n}(p) => GlyphSet::{n}," for n in names] + ["} }"]
    o.append("pub open spec fn gd_off(d: GlyphData) -> int { match d {")
    o += [f"    GlyphData::{n}(p) => p as int," for n in names] + ["} }"]
    o.append("pub broadcast proof fn lookup_ok(g: GlyphSet, s: Seq<char>) ensures found_ok(#[trigger] lookup(g, s), s, data(g), max_height(g))\n{ match g {")
    o += [f"    GlyphSet::{n} => ok_{n.lower()}(s)," for n in names] + ["} }"]
    o.append("pub broadcast group group_tables { find_is, " + ", ".join(f"ax_{n.lower()}_{b}" for n, (g, rs) in rules.items() for _, _, b, _ in rs) + " }")
    o.append("}\npub use fontspec::*;")
    return "\n".join(o) + "\n"


def vc(repo):
    """contracts of the per-font lookup functions"""
    o = ["# GENERATED by tools/srcdata.py: contracts of the lookup functions of src/fonts/*.rs"]
    for n, (g, rs) in lookup_rules(repo).items():
        m = n.lower()
        o.append(f"""== fn fonts::{m}::get_blit_pattern_offset(cluster) -> r
-- attr verifier::rlimit(60)
-- ensures lookup
gmatch(r, GlyphSet::{n}, lookup_{m}(cluster@), cluster@)
-- preamble
broadcast use crate::vlib::strs::group_str;
proof {{ reveal(lookup_{m}); }}""")
        for lo, hi, b, ls in rs:
            o.append(f"""== fn fonts::{m}::find_{b.lower()}(cluster, limit) -> r
-- ensures lookup
fmatch(r, find(tbl::fonts_{m}_HASH_{b}(), tbl::fonts_{m}_OFFSET_{b}(), {g['m3Seed']}, cluster@, limit as int), cluster@)
-- preamble
broadcast use crate::vlib::strs::group_str;""")
    return "\n".join(o) + "\n"


def digest(repo):
    """hash of everything the dump is made from"""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(repo, "codegen"))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if "src_data" in p or f == "config.json":
                h.update(os.path.relpath(p, repo).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


if __name__ == "__main__":
    if sys.argv[1] == "spec":
        open(sys.argv[3], "w").write(spec(sys.argv[2]))
    elif sys.argv[1] == "vc":
        open(sys.argv[3], "w").write(vc(sys.argv[2]))
    elif sys.argv[1] == "dump":
        with open(sys.argv[3], "w") as f:
            for n, (g, rs) in lookup_rules(sys.argv[2]).items():
                f.write("H %s %d\n" % (n, g["size"]))
                f.write("S %s %d\n" % (n, g["m3Seed"]))
                for lo, hi, b, ls in rs:
                    f.write("L %s %X %X %s %s\n" % (n, lo, hi, ",".join(map(str, ls)), b))
            for n, (g, d) in clusters(sys.argv[2]).items():
                for cps in sorted(d):
                    w, h, y, rows = d[cps]
                    f.write("G %s %s %d %d %d %s\n" % (n, "-".join("%X" % c for c in cps), w, h, y,
                            "".join("1" if p else "0" for r in rows for p in r)))
    elif sys.argv[1] == "hash":
        print(digest(sys.argv[2]))
