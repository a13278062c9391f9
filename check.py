#!/usr/bin/env python3
"""Decide one property of /repo's working tree.

  check.py PROP [--thorough]     exit 0 held, exit 1 + VIOLATION line
  check.py --build               build the tools
  check.py --baseline            rewrite contracts/baseline.json (loop skeletons of the tree)

The deciding step is Verus accepting every obligation of the functions the property depends
on, generated from /repo's current source; see DESIGN.md.
"""
import gzip, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BLITSTR_REPO", "/repo")
BUILD = os.path.join(V, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
sys.path.insert(0, os.path.join(V, "tools"))
T0 = time.time()

# module sets
ALL = ["blit", "fonts", "m3hash", "pt", "cliprect", "cursor", "framebuffer", "glyphstyle"]
# property -> (modules whose functions the property depends on, functions (None: all), own labels, uses glyph tables)
PROPS = {
    "C01": dict(mods=ALL, own=["implicit", "call", "terminates"], need=["blit::paint_str", "blit::clear_region"], tables=True),
    "C02": dict(mods=ALL, own=["confine"], need=["blit::paint_str"], tables=True),
    "C03": dict(mods=ALL, own=["pixels", "header", "word"], need=["blit::paint_str"], tables=True),
    "C04": dict(mods=ALL + ["harness"], own=["involution", "background"], need=["blit::paint_str"], tables=True),
    "C05": dict(mods=ALL, own=["cursor", "newline"], need=["blit::paint_str"], tables=True),
    "C06": dict(mods=ALL, own=["consumed", "lookup"], need=["blit::paint_str"], tables=True),
    "C07": dict(mods=ALL + ["harness"], own=["concat"], need=["blit::paint_str"], tables=True),
    "C08": dict(mods=["blit"], fns=["blit::clear_region"], own=["clear"], need=["blit::clear_region"], tables=False),
    "C09": dict(mods=["fonts"], own=["FAILBLOCK"], need=[], tables=True),
    "C10": dict(mods=["fonts", "m3hash"], own=["FAILGLYPH", "lookup"], need=[], tables=True),
    "C11": dict(mods=["m3hash", "fonts"], fns=["m3hash::grapheme_cluster", "m3hash::frame_buffer", "fonts::murmur3"], own=["hash"], need=["m3hash::grapheme_cluster", "m3hash::frame_buffer"], tables=False),
    "C12": dict(mods=["pt", "cliprect", "cursor", "framebuffer"], own=["geom"], need=["cliprect::ClipRect::new", "framebuffer::new_fr_buf"], tables=False),
    "C13": dict(mods=["glyphstyle"], own=["style"], need=["glyphstyle::glyph_to_height_hint"], tables=False),
    "C14": dict(mods=ALL + ["demo"], own=["demo"], need=["demo::sample_text", "demo::short_greeting", "demo::goose_poem"], tables=True),
}
# functions verified on their own, with several solver seeds side by side
HEAVY = {"blit::xor_char": [1, 7, 5], "blit::paint_str": [4, 0], "blit::clear_region": [0, 3]}
MORE_SEEDS = [2, 3, 6, 4]


def log(*a):
    print("[%5.1f]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=600, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


# ------------------------------------------------------------------ tools
def build_extract():
    d = os.path.join(V, "extract")
    c, o = run(["cargo", "build", "--release", "--offline", "-q"], cwd=d)
    if c:
        print(o)
        raise SystemExit("cannot build the extraction tool")
    return os.path.join(d, "target/release/extract")


def build_falsify():
    d = os.path.join(V, "falsify")
    for extra in ([], ["--no-default-features"]):
        c, o = run(["cargo", "build", "--release", "--offline", "-q"] + extra, cwd=d)
        if c == 0:
            return os.path.join(d, "target/release/falsify"), ("m3hash" if not extra else "")
    print(o[-3000:])
    return None, ""


def font_dump(work, fresh):
    """the clusters and bitmaps of codegen/src_data; regenerated when the sources changed"""
    out = os.path.join(work, "dump.txt")
    dig = run(["python3", os.path.join(V, "tools/srcdata.py"), "hash", REPO])[1].strip()
    have = open(os.path.join(V, "data/fontdump.digest")).read().strip()
    if dig == have and not fresh:
        with gzip.open(os.path.join(V, "data/fontdump.gz"), "rb") as f, open(out, "wb") as g:
            shutil.copyfileobj(f, g)
        return out, "from the committed rendering of unchanged font sources"
    c, o = run(["python3", os.path.join(V, "tools/srcdata.py"), "dump", REPO, out])
    if c:
        print(o[-2000:])
        return None, "font sources unreadable"
    return out, "rendered from codegen/src_data on this run"


def core_check(work):
    """the contracts assumed of core functions, against their bodies in the toolchain's source (never decides a verdict)"""
    try:
        p = os.path.join(work, "corelib.rs")
        c, o = run(["python3", os.path.join(V, "tools/corelib.py"), p], timeout=100)
        r = json.loads(o.strip().splitlines()[-1])
        if c:
            return r
        c, o = run(["verus", "corelib.rs"], timeout=200, cwd=work)
        m = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
        if c or not m or int(m.group(2)):
            return dict(error="not accepted by Verus: " + o[-400:])
        return dict(r, verified=int(m.group(1)))
    except Exception as e:
        return dict(error=repr(e)[:300])


CORE_OF = {"assumed contract of <CharIndices<'a> as Iterator>::next": "char_indices_next", "assumed contract of str::char_indices": "str_char_indices",
           "assumed contract of u32::rotate_left": "rotate_left", "trusted body: bsearch": "binary_search_by",
           "trusted body: str_from": "range_from_index", "trusted body: str_to": "range_to_index"}


def with_core(assum, core):
    """assumptions, with those discharged against the source of core marked as such"""
    out = []
    for a in assum:
        k = CORE_OF.get(a)
        if k and core.get("verified") and any(f.split()[-1] == k for f in core["functions"]):
            out.append("%s: the contract is proved of the body in the core source of %s (contracts/corelib.rs); assumed is that this source is what the compiler links" % (a.split(": ")[-1].replace("assumed contract of ", ""), core["toolchain"]))
        else:
            out.append(a)
    return out


def ground_source(work):
    s = open(os.path.join(V, "contracts/vlib.rs")).read()
    a, b = s.index("/*@@PART BEGIN@@*/"), s.index("/*@@PART END@@*/")
    p = os.path.join(work, "ground.rs")
    with open(p, "w") as f:
        f.write("#![allow(unused_imports, dead_code)]\nuse vstd::prelude::*;\nverus! {\n" + s[a:b])
        f.write(open(os.path.join(V, "contracts/ground.rs")).read())
    return p


# ------------------------------------------------------------------ verus
class Task:
    """one verus process; a failure is a set of (function path, label, message)"""

    def __init__(self, src, args, cwd, timeout, key=None, seed=None):
        self.src, self.args, self.cwd, self.timeout, self.key, self.seed = src, args, cwd, timeout, key, seed
        self.rc = self.result = None
        self.out = self.err = ""
        self.proc = None
        self.killed = False
        self.wall = 0.0

    def start(self):
        cmd = ["verus", self.src] + self.args + ["--output-json", "--time-expanded", "--multiple-errors", "12"]
        if self.seed:
            cmd += ["--smt-option", "smt.random_seed=%d" % self.seed]
        cmd += ["--", "--error-format=json"]
        self.cmd = cmd
        self.t = time.time()
        self.fo = tempfile.TemporaryFile("w+", errors="replace")
        self.fe = tempfile.TemporaryFile("w+", errors="replace")
        self.proc = subprocess.Popen(cmd, cwd=self.cwd, stdout=self.fo, stderr=self.fe, start_new_session=True)

    def poll(self):
        if self.proc.poll() is None:
            if time.time() - self.t > self.timeout:
                self.kill()
            else:
                return False
        self.finish()
        return True

    def kill(self):
        self.killed = True
        try:
            os.killpg(self.proc.pid, 9)
        except OSError:
            pass
        self.proc.wait()

    def finish(self):
        self.wall = time.time() - self.t
        self.rc = self.proc.returncode
        for a, f in (("out", self.fo), ("err", self.fe)):
            f.seek(0)
            setattr(self, a, f.read())
            f.close()
        try:
            self.result = json.loads(self.out)
        except ValueError:
            self.result = None

    def counts(self):
        v = (self.result or {}).get("verification-results", {})
        return v.get("verified", 0) or 0, v.get("errors", 0) or 0

    def ok(self):
        v = (self.result or {}).get("verification-results", {})
        return self.rc == 0 and v.get("errors") == 0 and (v.get("verified") or 0) > 0 and not v.get("encountered-error") and not v.get("encountered-vir-error")

    def decided(self):
        """verus got as far as verification conditions"""
        v = (self.result or {}).get("verification-results", {})
        return not self.killed and "verified" in v and not v.get("encountered-vir-error") and sum(self.counts()) > 0

    def smt_ms(self):
        t = (self.result or {}).get("times-ms", {})
        try:
            return int(t["smt"]["smt-run"])
        except (KeyError, TypeError):
            return 0

    def errors(self):
        for l in self.err.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting due to"):
                yield d


def pool(tasks, slots=8, deadline=None):
    """run tasks; when one of a key succeeds, the others of that key are dropped; none starts
    or goes on after the deadline"""
    todo, live, done = list(tasks), [], []
    won = set()
    while todo or live:
        if deadline and time.time() > deadline:
            todo = []
            for t in live:
                t.timeout = 0
        while todo and len(live) < slots:
            t = todo.pop(0)
            if t.key and t.key in won:
                continue
            t.start()
            live.append(t)
        time.sleep(0.05)
        for t in list(live):
            if t.key and t.key in won and t.proc.poll() is None:
                t.kill()
                t.finish()
                live.remove(t)
                continue
            if t.poll():
                live.remove(t)
                done.append(t)
                if t.key and t.ok():
                    won.add(t.key)
    return done


class Source:
    def __init__(self, work, name, extract, contracts, choose={}, external=[], vacuity=False):
        self.dir = os.path.join(work, name)
        os.makedirs(self.dir, exist_ok=True)
        self.rs = os.path.join(self.dir, "out.rs")
        cmd = [extract, "--repo", REPO, "--contracts", contracts, "--out", self.rs, "--map", os.path.join(self.dir, "out.json"),
               "--tables", os.path.join(self.dir, "tables.txt"), "--dict", os.path.join(self.dir, "dict.txt")]
        for k, v in choose.items():
            cmd += ["--choose", "%s=%d" % (k, v)]
        for e in external:
            cmd += ["--external", e]
        if vacuity:
            cmd += ["--vacuity", "1"]
        c, o = run(cmd)
        if c:
            print(o[-3000:])
            raise SystemExit("extraction failed")
        self.map = json.load(open(os.path.join(self.dir, "out.json")))
        self.lines = open(self.rs).read().split("\n")
        self.fns = {f["contract"]: f for f in self.map["functions"]}

    def where(self, line):
        for f in self.map["functions"]:
            if f["start"] <= line <= f["end"]:
                return f["contract"]
        if line >= self.map["harness_start"]:
            # the enclosing fn of the harness file
            for k in range(line - 1, 0, -1):
                m = re.match(r"\s*pub (?:proof |open spec )?fn (\w+)", self.lines[k])
                if m:
                    return "harness::" + m.group(1)
        if line >= self.map["vlib_start"]:
            return "vlib"
        return "?"

    def label(self, d):
        """(function, label, text) of a diagnostic"""
        fn, lab, txt = None, None, ""
        msg = d["message"]
        spans = [s for s in d["spans"] if s["file_name"].endswith("out.rs")]
        for s in sorted(spans, key=lambda s: not s["is_primary"]):
            w = self.where(s["line_start"])
            m = None
            for k in range(s["line_start"], s["line_end"] + 1):
                m = m or re.search(r"/\*@(\w+)@\*/", self.lines[k - 1])
            if m and not lab and "precondition" not in msg:
                lab = m.group(1)
                txt = " ".join(self.lines[s["line_start"] - 1].split())
            if w != "?" and (fn is None or w != "vlib"):
                fn = w if fn in (None, "vlib") else fn
            if not txt:
                txt = " ".join(self.lines[s["line_start"] - 1].split())
        # a failed precondition is reported at the call
        if "precondition" in msg or not lab:
            at = [s for s in spans if s["is_primary"]] or spans
            if at:
                fn = self.where(at[0]["line_start"])
            lab = "call" if "precondition" in msg else "implicit"
        if "decreases" in msg:
            lab = "terminates"
        return fn or "?", lab, txt[:300]


class Verdict:
    pass


def passes_only(src, k):
    """the function uses its buffer only as the first argument of clear_region and paint_str"""
    f = src.fns[k]
    t = "\n".join(src.lines[f["start"] - 1:f["end"] - 1])
    m = re.search(r"fn \w+\s*\((\w+)\s*:\s*&\s*mut FrBuf\s*\)", t)
    if not m or "\n{\n" not in t:
        return False
    body = t.split("\n{\n", 1)[1]
    n = m.group(1)
    uses = len(re.findall(r"\b%s\b" % n, body))
    calls = len(re.findall(r"\b(?:paint_str|clear_region)\s*\(\s*%s\s*," % n, body))
    return uses == calls > 0 and "unsafe" not in body


def skeleton(fns):
    return {k: [[l["depth"], l["kind"], l["head"]] for l in f["loops"]] for k, f in sorted(fns.items())}


def verify(prop, work, extract, contracts, tier, src, quick_only):
    P = PROPS[prop]
    r = Verdict()
    r.failed = {}      # function -> {label: text}, confirmed by every attempt
    r.undecided = {}   # function -> reason
    r.verified = {}    # function or module set -> (count, seed, smt ms)
    r.notes = []
    r.tasks = []
    external = []
    for k in P["need"]:
        if k not in src.fns:
            r.undecided[k] = "no function in the source to attach this contract to"
    scope = P.get("fns")

    def in_scope(k):
        if k.split("::")[0] not in P["mods"]:
            return False
        return scope is None or k in scope

    def rest_args(src):
        mods = set()
        for k in src.fns:
            m = k.split("::")
            if m[0] in P["mods"] and m[0] != "blit":
                mods.add(m[0])
        if "harness" in P["mods"]:
            mods.add("harness")
        a = ["--verify-module", "vlib"]
        for m in sorted(mods):
            a += ["--verify-module", m]
        return a + ["--num-threads", "4"]

    def fn_args(k):
        m, f = k.split("::")[0], k.split("::")[-1]
        return ["--verify-only-module", m, "--verify-function", f, "--num-threads", "1"]

    # front-end errors inside one function: leave that function out, keep the others decided
    for attempt in range(8):
        probe = Task("out.rs", rest_args(src), src.dir, 300, seed=0)
        blit = [k for k in src.fns if k.startswith("blit::") and in_scope(k) and not src.fns[k].get("external")]
        tasks = [probe]
        for k in blit:
            for s in HEAVY.get(k, [0]):
                tasks.append(Task("out.rs", fn_args(k), src.dir, 170, key=k, seed=s))
        done = pool(tasks)
        r.tasks += done
        front = [t for t in done if not t.decided() and not t.killed and not t.ok() and not solver_crash(t)]
        if not front:
            break
        bad = {}
        for t in front:
            for d in t.errors():
                w, _, txt = src.label(d)
                bad.setdefault(w, d["message"] + ": " + txt)
        bad = {w: m for w, m in bad.items() if w in src.fns and w not in external}
        if not bad:
            for d in front[0].errors():
                r.notes.append(d.get("rendered", d["message"])[:600])
            r.undecided["*"] = "Verus rejects the extracted source: " + (r.notes[0] if r.notes else front[0].err[-600:])
            r.src = src
            return r
        for w, m in bad.items():
            external.append(w)
            r.undecided[w] = "outside the verifier's language: " + m[:300]
        log("left out:", ", ".join(external))
        src = Source(work, "v0", extract, contracts, external=external)
    r.src = src
    # the rest: a function that fails is retried on its own
    retry = {}
    t = [x for x in done if x.args == probe.args][0]
    if t.ok():
        r.verified["rest"] = (t.counts()[0], t.seed, t.smt_ms())
    else:
        v, e = t.counts()
        r.verified["rest"] = (v, t.seed, t.smt_ms())
        if t.killed:
            r.undecided["rest"] = "verifier ran out of time"
        for d in t.errors():
            w, lab, txt = src.label(d)
            retry.setdefault(w, []).append((lab, txt, d["message"]))
    attempts = {}  # fn -> list of {label: text} of decided failures

    def note(k, t, s):
        if t.ok():
            return
        if t.killed or solver_crash(t):
            attempts.setdefault(k, []).append(None)
            return
        fl, hard = {}, False
        for d in t.errors():
            if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower():
                continue
            w, lab, txt = s.label(d)
            fl[lab] = txt + "  [" + d["message"] + "]"
        attempts.setdefault(k, []).append(fl or None)

    for k in blit:
        ts = [x for x in done if x.key == k]
        won = [x for x in ts if x.ok()]
        if won:
            r.verified[k] = (won[0].counts()[0], won[0].seed, won[0].smt_ms())
        else:
            for x in ts:
                note(k, x, src)
            retry.setdefault(k, [])
    # second round: more seeds, then the other ways to attach the loop contracts
    # (not when a failing input is known already: the first round's answer only names the obligation)
    if retry and quick_only:
        for k, v in retry.items():
            got = [a for a in attempts.get(k, []) if a] or ([{l: t + "  [" + m + "]" for l, t, m in v}] if v else [])
            if got and (k in src.fns or k.startswith("harness::")):
                r.failed[k] = min(got, key=len)
            else:
                r.undecided[k] = "; ".join(sorted(set(x[1] + " [" + x[2] + "]" for x in v)))[:500] or "no answer from the solver within its limits"
    elif retry:
        log("first round left:", {k: sorted(set(x[0] for x in v)) for k, v in retry.items()} )
        tasks = []
        for k in retry:
            if k in src.fns or k.startswith("harness::"):
                for s in MORE_SEEDS[:3]:
                    x = Task("out.rs", fn_args(k), src.dir, 100, key=k, seed=s)
                    x.fn, x.src_ = k, src
                    tasks.append(x)
                n = src.fns.get(k, {}).get("variants", 1)
                for c in range(1, min(n, 24)):
                    s2 = Source(work, "v_%s_%d" % (k.replace("::", "_"), c), extract, contracts, choose={k: c}, external=external)
                    x = Task("out.rs", fn_args(k), s2.dir, 100, key=k, seed=1)
                    x.fn, x.src_ = k, s2
                    tasks.append(x)
            else:
                # a lemma of the library itself, or no function at all
                r.undecided[k] = "; ".join(sorted(set(x[1] + " [" + x[2] + "]" for x in retry[k])))[:500]
        done2 = pool(tasks, deadline=T0 + (430 if tier == "quick" else 3000))
        r.tasks += done2
        for k in retry:
            ts = [x for x in done2 if x.key == k]
            won = [x for x in ts if x.ok() and x.counts()[0] > 0]
            if won:
                r.verified[k] = (won[0].counts()[0], won[0].seed, won[0].smt_ms())
                r.undecided.pop(k, None)
                continue
            if not ts:
                continue
            for x in ts:
                note(k, x, x.src_)
            got = [a for a in attempts.get(k, []) if a]
            # the labels that fail in every decided attempt
            if got:
                common = set(got[0])
                for a in got[1:]:
                    common &= set(a)
                best = min(got, key=len)
                if common:
                    r.failed[k] = {l: best.get(l) or got[0][l] for l in common}
                else:
                    r.undecided[k] = "different obligations fail with different solver seeds or loop attachments: " + "; ".join("%s: %s" % x for x in sorted(best.items()))[:400]
            else:
                r.undecided[k] = "no answer from the solver within its limits"
    if "rest" in r.undecided and not retry:
        pass
    for m in src.map["problems"]:
        if not m.startswith("contract has no function"):
            r.notes.append(m)
    return r


def solver_crash(t):
    return "worker thread panicked" in t.err or "unexpected output from solver" in t.err


# ------------------------------------------------------------------ assumption scan
def assumptions(src):
    text = "\n".join(src.lines)
    out = []
    for m in re.finditer(r"broadcast axiom fn (\w+)", text):
        if not m.group(1).startswith("ax_"):
            out.append("axiom " + m.group(1))
    n = len(re.findall(r"broadcast axiom fn ax_\w+", text))
    if n:
        out.append("%d axioms ax_FONT_BLOCK about the glyph tables: discharged on every run by the executed ground checker" % n)
    for m in re.finditer(r"assume_specification(?:<[^>]*>)?\s*\[([^\]]*)\]", text):
        out.append("assumed contract of " + m.group(1).strip())
    for m in re.finditer(r"external_body\]\s*(?:pub )?(?:exec const|fn|struct|enum)?\s*(?:pub )?(?:struct |fn |const )?(\w+)", text):
        pass
    for m in re.finditer(r"#\[verifier::external_body\]\s*(.*)", text):
        t = m.group(1).strip()
        if "exec const" in t:
            continue
        f = re.search(r"(?:fn|struct)\s+(\w+)", t)
        if f:
            out.append("trusted body: " + f.group(1))
    n = len(re.findall(r"external_body\]\s*pub exec const", text))
    if n:
        out.append("%d table constants are opaque: their numbers are those the extraction reads from the same source" % n)
    for w in ("assume(", "admit("):
        k = text.count(w)
        if k:
            out.append("%d uses of %s)" % (k, w))
    return sorted(set(out))


# ------------------------------------------------------------------ main
def check(prop, tier):
    P = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
    try:
        return check_in(prop, tier, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(prop, tier, work):
    P = PROPS[prop]
    extract = build_extract()
    box = {}

    def bf():
        box["f"] = build_falsify()

    th = threading.Thread(target=bf)
    th.start()
    ct = threading.Thread(target=lambda: box.update(core=core_check(work)))
    ct.start()
    dump, dump_how = font_dump(work, fresh=prop == "C10")
    contracts = os.path.join(work, "contracts")
    shutil.copytree(os.path.join(V, "contracts"), contracts)
    srcdata_err = None
    for what, f in (("spec", "fonts_spec.rs"), ("vc", "fonts.vc")):
        c, o = run(["python3", os.path.join(V, "tools/srcdata.py"), what, REPO, os.path.join(contracts, f)])
        if c:
            srcdata_err = o[-500:]
    th.join()
    falsify, feats = box["f"]
    log("tools built; fonts", dump_how)
    own = P["own"]

    def is_own(lab):
        return any(lab == o or lab.startswith(o + "_") for o in own)

    src = None if srcdata_err else Source(work, "v0", extract, contracts)
    # --- falsifier: a short search first (a failing input settles the verdict), the long one when
    # the proof is not complete
    fal = {}
    replay = os.path.join(BUILD, "replay", prop + ".txt")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.remove(replay)
    rp = os.path.join(work, "found.txt")
    notes = []

    def search(secs, seed):
        if not falsify or not dump:
            notes.append("bounded falsifier not available for this tree")
            log("bounded falsifier not available")
            return None
        dic = os.path.join(src.dir, "dict.txt") if src else os.path.join(work, "nodict")
        if not src:
            open(dic, "w").close()
        try:
            c, o = run([falsify, "run", prop, dump, dic, str(seed), str(secs), rp], timeout=secs + 150)
        except subprocess.TimeoutExpired:
            c, o = 2, "timeout"
        m = re.search(r"cases (\d+) effective (\d+) fixed (\d+) seconds ([\d.]+)", o)
        sm = re.search(r"^sample (.*)$", o, re.M)
        if m:
            for k, v in zip(("cases", "effective", "systematic"), m.groups()):
                fal[k] = fal.get(k, 0) + int(v) if k != "systematic" else int(v)
            fal["seconds"] = round(fal.get("seconds", 0) + float(m.group(4)), 1)
            fal["sample"] = sm.group(1)[:400] if sm else ""
        found = None
        if c == 1 and "FAIL" in o and os.path.exists(rp):
            found = re.search(r"^FAIL (.*)$", o, re.M).group(1)
        elif c != 0:
            notes.append("falsifier: " + o[-300:])
        log("falsifier:", {k: v for k, v in fal.items() if k != "sample"}, "found:", found)
        return found

    found = search(6 if tier == "quick" else 60, SEED)
    # --- proof
    if srcdata_err:
        r = Verdict()
        r.failed, r.undecided, r.verified, r.notes, r.tasks = {}, {"*": "font sources unreadable: " + srcdata_err}, {}, [], []
        r.src = None
    else:
        r = verify(prop, work, extract, contracts, tier, src, bool(found))
    log("verified:", {k: v[0] for k, v in r.verified.items()}, "failed:", r.failed, "undecided:", {k: v[:200] for k, v in r.undecided.items()})

    # --- ground facts
    ground = None
    gfail = []
    if P["tables"] and r.src and dump:
        g = ground_source(work)
        t = time.time()
        c, o = run(["verus", "--compile", "ground.rs", "-o", "ground", "-C", "opt-level=3"], cwd=work)
        m = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
        if c == 0 and m and m.group(2) == "0":
            c, o = run([os.path.join(work, "ground"), os.path.join(r.src.dir, "tables.txt"), dump])
            d = re.search(r"DONE blocks (\d+) glyphs (\d+) bad (\d+)", o)
            gfail = [l for l in o.splitlines() if not l.startswith("DONE")]
            if d and int(d.group(1)) > 0 and int(d.group(2)) > 0:
                ground = dict(checker_functions_verified=int(m.group(1)), blocks=int(d.group(1)), glyphs=int(d.group(2)), bad_glyphs=int(d.group(3)),
                              bad_blocks=len([l for l in gfail if l.startswith("FAILBLOCK")]), wall_s=round(time.time() - t, 1))
        if ground is None:
            r.undecided["ground checker"] = "did not run: " + o[-400:]
        log("ground facts:", ground, gfail[:3])
        for l in gfail:
            lab = l.split(" ")[0]
            if lab in own or (lab == "FAILBLOCK" and prop == "C10"):
                r.failed.setdefault("glyph tables", {})[lab if lab in own else "FAILGLYPH"] = l
            elif lab != "FAILGLYPH":
                r.undecided["glyph tables"] = l
    elif P["tables"] and not dump:
        r.undecided["glyph tables"] = "font sources unreadable"

    # --- vacuity: every precondition must be satisfiable (assert(false) must not be provable)
    vac = None
    if r.src and "*" not in r.undecided and not found:
        sv = Source(work, "vac", extract, contracts, external=[k for k in r.src.fns if r.src.fns[k].get("external")], vacuity=True)
        fns = [k for k in sv.fns if not sv.fns[k].get("external") and k.split("::")[0] in P["mods"] and (P.get("fns") is None or k in P["fns"])]
        a = []
        for m in sorted(set(k.split("::")[0] for k in fns)):
            a += ["--verify-module", m]
        t = Task("out.rs", a + ["--num-threads", "8"], sv.dir, 200)
        pool([t])
        hit = set()
        for d in t.errors():
            w, lab, _ = sv.label(d)
            if lab == "vacuity":
                hit.add(w)
        vac = dict(functions=len(fns), reachable=len(hit & set(fns)))
        miss = sorted(set(fns) - hit)
        if miss and t.decided():
            r.undecided["vacuity"] = "contract not shown satisfiable for: " + ", ".join(miss)
        log("vacuity:", vac, miss)

    # --- skeleton
    base = json.load(open(os.path.join(V, "contracts/baseline.json")))
    now = skeleton(r.src.fns) if r.src else {}
    # loops written differently, or a loop contract the extraction could not attach: a failure there
    # may be the contract's, not the code's
    changed = sorted(k for k in now if (k in base and base[k] != now[k]) or r.src.fns[k].get("unattached"))
    own_fail = {k: {l: t for l, t in f.items() if is_own(l)} for k, f in r.failed.items()}
    own_fail = {k: f for k, f in own_fail.items() if f}
    support = {k: f for k, f in r.failed.items() if k not in own_fail}
    definite = {k: f for k, f in own_fail.items() if k not in changed}
    # a table is judged against the search that reads it: only where that search is verified
    readers = [k for k in list(r.failed) + list(r.undecided) if k == "*" or k.startswith("fonts::")]
    if readers or any(k.startswith("fonts::") for k in changed):
        definite.pop("glyph tables", None)
    # a demo takes nothing but the buffer.  When all it does with it is hand it to clear_region and
    # paint_str (both verified in this run), each final pixel is a constant or the former pixel or
    # its negation, and the falsifier's blank and full buffers settle the picture for every buffer
    if fal.get("systematic") and all(k.startswith("demo::") for k in list(r.failed) + list(r.undecided)):
        for k in [k for k in definite if k.startswith("demo::") and passes_only(r.src, k)]:
            definite.pop(k)
            notes.append("%s: not the calls of the contract; its picture was compared with the contract's on a blank and on a full buffer" % k)
    proved = not r.failed and not r.undecided

    if not found and (not proved or tier == "thorough"):
        found = search(45 if tier == "quick" else 200, SEED + 1000)
    r.notes += notes
    # --- known findings
    known = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) file=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop and falsify and dump:
            c, o = run([falsify, "replay", dump, os.path.join(V, m.group(2))], timeout=120)
            known.append((m.group(2), m.group(3), c == 1))
            if c == 1:
                print("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))

    # --- verdict
    violation, tail = False, ""
    if found:
        violation = True
        shutil.copy(rp, replay)
        with open(replay, "a") as f:
            f.write("# replay: python3 %s/check.py --replay %s\n" % (V, replay))
            for k, x in {**own_fail, **support}.items():
                for l, t in x.items():
                    f.write("# failed obligation: %s %s: %s\n" % (k, l, t))
    elif definite:
        violation, tail = True, " no-failing-input-found"
        with open(replay, "w") as f:
            f.write("property %s\nno failing input found by the bounded search (%s)\n" % (prop, fal))
            for k, x in definite.items():
                for l, t in x.items():
                    f.write("failed obligation: %s, clause %s: %s\n" % (k, l, t))
            f.write("verifier output:\n")
            for t in r.tasks:
                for d in t.errors():
                    f.write(d.get("rendered") or d["message"])
    bounded = not proved and not violation
    # --- evidence
    ct.join()
    core = box["core"]
    assum = with_core(assumptions(r.src), core) if r.src else []
    nver = sum(v[0] for v in r.verified.values())
    nerr = sum(t.counts()[1] for t in r.tasks if not t.key) if False else len(r.failed) + len([k for k in r.undecided if k in (r.src.fns if r.src else {})])
    clauses = 0
    under = []
    if r.src:
        for k, f in r.src.fns.items():
            if k.split("::")[0] in P["mods"] and (P.get("fns") is None or k in P["fns"]):
                under.append(k)
                clauses += len(f["labels"])
    gob = (ground["blocks"] + ground["glyphs"] + ground["checker_functions_verified"]) if ground else 0
    gok = gob - (ground["bad_blocks"] + ground["bad_glyphs"] if ground else 0)
    ncore = core.get("verified", 0)
    cov = dict(
        obligations=nver + nerr + gob + ncore, discharged=nver + gok + ncore,
        checker_cmd="verus out.rs --verify-module ... (per function, several seeds) on the source extracted from /repo; then verus --compile ground.rs and its execution on the tables",
        trusted_base=["Verus 0.2026.09.13 and its Z3", "rustc", "the extraction tool /verif/extract (rewrites listed in 'rewrites')", "tools/srcdata.py as reader of the font sources"] + assum,
        explanation=("every obligation of the functions below was discharged by Verus/Z3 for all inputs" if proved else
                     "BOUNDED: not every obligation was discharged (see 'undecided'); the verdict of this run rests on the bounded search described in 'falsifier'" if bounded else "violation reported"),
        proved=proved, functions_under_contract=under, contract_clauses=clauses,
        verus_queries={k: dict(verified=v[0], seed=v[1], smt_ms=v[2]) for k, v in r.verified.items()},
        backend="Z3 via Verus (bit-vector queries by(bit_vector), nonlinear steps by(nonlinear_arith))",
        solver_ms=sum(t.smt_ms() for t in r.tasks), ground=ground, vacuity=vac,
        failed=r.failed, undecided=r.undecided, loop_structure_changed=changed,
        core_library=core,
        rewrites=(r.src.map["rewrites"] if r.src else {}), dropped=(r.src.map["dropped"] if r.src else []), inlined=(r.src.map["inlined"] if r.src else []),
        falsifier=fal, known_findings=[dict(file=a, what=b, still_fails=c) for a, b, c in known], font_sources=dump_how, notes=r.notes[:10],
    )
    if fal:
        cov["evaluations"] = fal["cases"]
        cov["samples"] = [fal["sample"]]
        cov["rule"] = "bounded cross-check of the compiled crate against an independent model; effective cases: painting with some text in an acceptable clip rect"
        cov["distinct_nontrivial"] = fal["effective"]
    ev = dict(property=prop, tier=tier, seed=SEED, level="proof", coverage=cov,
              assumptions=assum + ["machine arithmetic is checked (overflow is an obligation), not treated as mathematical", "usize is 64 bits wide only in the executed falsifier; the proof covers 32 and 64 bits"],
              wall_s=round(time.time() - T0, 1), violations=1 if violation else 0)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        if found:
            print("failing input: " + found)
        for k, x in (own_fail or {}).items():
            for l, t in x.items():
                print("failed obligation: %s [%s] %s" % (k, l, t))
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, tail), flush=True)
        return 1
    if bounded:
        print("%s: undecided by the verifier, BOUNDED search clean: %s" % (prop, "; ".join("%s: %s" % (k, v[:160]) for k, v in list(r.undecided.items()) + [(k, str(f)) for k, f in r.failed.items()])))
    else:
        print("%s: proved (%d obligations discharged)" % (prop, cov["discharged"]))
    return 0


def main():
    a = sys.argv[1:]
    if a == ["--build"]:
        build_extract()
        build_falsify()
        return 0
    if a == ["--baseline"]:
        os.makedirs(BUILD, exist_ok=True)
        work = tempfile.mkdtemp(dir=BUILD)
        contracts = os.path.join(work, "contracts")
        shutil.copytree(os.path.join(V, "contracts"), contracts)
        for what, f in (("spec", "fonts_spec.rs"), ("vc", "fonts.vc")):
            run(["python3", os.path.join(V, "tools/srcdata.py"), what, REPO, os.path.join(contracts, f)])
        s = Source(work, "v0", build_extract(), contracts)
        json.dump(skeleton(s.fns), open(os.path.join(V, "contracts/baseline.json"), "w"), indent=0, sort_keys=True)
        shutil.rmtree(work)
        return 0
    if a and a[0] == "--replay":
        f, _ = build_falsify()
        os.makedirs(BUILD, exist_ok=True)
        work = tempfile.mkdtemp(dir=BUILD)
        d, _ = font_dump(work, False)
        c, o = run([f, "replay", d, a[1]])
        print(o)
        shutil.rmtree(work)
        return c
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
