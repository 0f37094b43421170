"""C01 - any text, any options, any output format: a conversion returns normally."""
import os, re, shutil, subprocess, sys, tempfile, time, zipfile, base64
from hypothesis import strategies as st
from lib.runner import Prop, VERIF
from lib.worker import Violation, Worker
from lib import gens, build

BINS = ["worker", "fuzz"]
RULE = ("Structured documents (blocks and inline syntax of every dialect), syntax soups and raw bytes, each with random option "
        "sets over all modes and output formats, are converted under AddressSanitizer; plus the stored corpus of a coverage-guided "
        "libFuzzer search (thorough: and a further search from it). Non-trivial: at least 8 bytes of input and a non-empty result (for libFuzzer: inputs that reached new coverage).")
ASSUMPTIONS = ["cmark-gfm and libyaml from the system are trusted", "the input is NUL-terminated, as the program's callers guarantee",
               "memory safety is observed through AddressSanitizer, termination through a 60 s limit on inputs of at most a few KB"]


def t_doc(case, ctx):
    r = ctx.w.call("conv", gens.opttext(case["o"]), case["t"].encode("utf-8", "surrogatepass").replace(b"\0", b""))
    if r[0] is None:
        raise Violation("no result")
    if len(r) > 1:
        raise Violation(str(r[1:]))
    ctx.label("format %s" % case["o"].get("output_format", 0), "mode %d" % case["o"]["mode"])
    ctx.nt(len(case["t"]) >= 8 and len(r[0]) > 0)


def t_bytes(case, ctx):
    b = case["t"].encode("latin-1").replace(b"\0", b"")
    r = ctx.w.call("conv", gens.opttext(case["o"]), b)
    if r[0] is None or len(r) > 1:
        raise Violation("no result" if r[0] is None else str(r[1:]))
    ctx.nt(len(b) >= 8 and len(r[0]) > 0)


SCALE = ["a ", "*a* ", "[a](b) ", "![a](b.png) ", "`c` ", "==m== ", "{++x++} ", "{~~a~>b~~} ", "{>>c<<}", "^[n] ", "[^1] ", "x^2^ ", "H~2~O ", ":smile: ", ":smle: ", "[[W]] ", "$x$ ", "<b>x</b> ", "[%k] ",
         "# h\n", "- a\n", "1. a\n", "> a\n", "a. x\n", "| a | b |\n", "term\n: def\n\n", "```\nx\n```\n", "<!--BREAK-->\n", "::: note\nx\n:::\n", "{:.a}\n", "<div markdown=\"1\">\nx\n</div>\n\n", "[>ab]: cd\n", "*[ab]: cd\n", "(!i) ", "[@k] ", "http://e.com ", "me@e.com ", "\n", "k: v\n", "<!--TABLE-->\na,b\n\n", "+---+\n| a |\n+---+\n", "\\[x\\] ", "{% a %} ", "--- ", "\"q\" ", "#t ", "é", "*", "_", "[", "(", "{", "<", "|", "`", "~", "^", "==", "++", "{{", "[[", "[%", "<!--", "$$", "\\(", ":", "!["]


def t_scale(case, ctx):
    t = (case["pre"] + case["u"] * case["n"] + case["post"]).encode()
    r = ctx.w.call("conv", gens.opttext(case["o"]), t)
    if r[0] is None or len(r) > 1:
        raise Violation("no result" if r[0] is None else str(r[1:]))
    ctx.nt(len(r[0]) > 0)


PARSERS = ["bibtex", "csljson", "cslyaml", "meta_extract"]
SIDE = ["@article{a,\n author = {A and B},\n title={T {U}},\n year = 2001,\n}\n", "@book{b, title=\"x\", ", "[{\"id\":\"a\",\"title\":\"T\"}]", "references:\n- id: a\n  title: T\n", "---\ntitle: a\n---\n", "{\"t\":\"Para\",\"c\":[", "a,b\nc,d\n", "\"", "{", "}", "[", "]", ",", ":", "\n", "\\", "=", "@", "#", "- ", "  ", "id", "title", "author", "null", "1e9", "\\u00e9", "{\"blocks\":[", "\"meta\":{}", "\"t\":\"Str\"", "\"c\":\"x\""]


def t_side(case, ctx):
    t = "".join(case["t"]).encode("utf-8", "surrogatepass").replace(b"\0", b"")
    for p in PARSERS:
        ctx.w.call(p, t)
    ctx.w.call("json2", "mode=4\n", t)
    ctx.w.call("apex_csv_to_table", t, 0)
    ctx.w.call("t2t", "apex_pretty_print_html", t)
    ctx.w.call("attrs", t)
    ctx.nt(len(t) >= 8)


nonnul = st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=80)
PROPS = [
    Prop("structured", lambda: st.fixed_dictionaries({"t": gens.doc, "o": gens.options()}), t_doc, 12000),
    Prop("bytes", lambda: st.fixed_dictionaries({"t": nonnul, "o": gens.options()}), t_bytes, 3000),
    Prop("scale", lambda: st.fixed_dictionaries({"pre": st.sampled_from(["", "x ", "# ", "- ", "| ", "> "]), "u": st.sampled_from(SCALE), "n": st.sampled_from([1, 3, 10, 40, 130, 400]), "post": st.sampled_from(["", "\n", " z\n", "|", "*", "]", "}"]), "o": gens.options()}), t_scale, 2500),
    Prop("side-files", lambda: st.fixed_dictionaries({"t": st.lists(st.one_of(st.sampled_from(SIDE), st.text(max_size=5)), max_size=14)}), t_side, 2500),
]


def _env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
    e["HOME"] = "/nonexistent"
    return e


def extra(tier, seed, bins, t_end):
    d = tempfile.mkdtemp(prefix="apexv-fz-")
    try:
        corp = os.path.join(d, "corpus"); os.mkdir(corp)
        z = os.path.join(VERIF, "corpus", "c01.zip")
        ncorp = 0
        if os.path.exists(z):
            with zipfile.ZipFile(z) as zf:
                zf.extractall(corp); ncorp = len(zf.namelist())
        secs = 25 if tier == "quick" else 1500
        art = os.path.join(d, "art"); os.mkdir(art)
        names = sorted(os.listdir(corp))
        # pass 1: every stored input once, split over 8 processes
        ps = []
        for i in range(8):
            lst = names[i::8]
            if not lst: continue
            sub = os.path.join(d, "c%d" % i); os.mkdir(sub)
            for n in lst: os.rename(os.path.join(corp, n), os.path.join(sub, n))
            log = open(os.path.join(d, "log%d" % i), "wb")
            ps.append((subprocess.Popen([bins["fuzz"], "-seed=%d" % (seed * 16 + i + 1), "-runs=0" if tier == "quick" else "-max_total_time=%d" % secs, "-timeout=60", "-rss_limit_mb=3000", "-max_len=600",
                                         "-dict=" + os.path.join(VERIF, "harness/fuzz.dict"), "-artifact_prefix=%s/" % art, "-print_final_stats=1", sub],
                                        stdout=log, stderr=subprocess.STDOUT, env=_env(), cwd=d), log, i))
        ex = new = 0
        for p, log, i in ps:
            try: p.wait(timeout=secs + 240)
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            log.close()
            t = open(os.path.join(d, "log%d" % i), errors="replace").read()
            m = re.search(r"number_of_executed_units: (\d+)", t); ex += int(m.group(1)) if m else 0
            m = re.search(r"new_units_added: (\d+)", t); new += int(m.group(1)) if m else 0
        fails = []
        for a in sorted(os.listdir(art)):
            if a.startswith(("crash-", "timeout-")):
                b = open(os.path.join(art, a), "rb").read()
                fails.append(("libfuzzer", {"b64": base64.b64encode(b).decode()}, a))
        return fails, dict(evaluations=ex, distinct_nontrivial=new + ncorp, libfuzzer=dict(executions=ex, stored_corpus=ncorp, new_units=new))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay_extra(d, ctx):
    f = tempfile.NamedTemporaryFile(delete=False)
    f.write(base64.b64decode(d["case"]["b64"])); f.close()
    try:
        p = subprocess.run([ctx.bins["fuzz"], "-timeout=100", f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env(), timeout=400)
        if p.returncode:
            t = p.stdout.decode(errors="replace")
            m = re.search(r"ERROR: (.*)", t)
            fr = re.findall(r" in (apex\w*|\w+) /repo/(\S+)", t)
            return "%s %s" % (m.group(1) if m else "failed", fr[:3])
        return None
    except subprocess.TimeoutExpired:
        return "no termination"
    finally:
        os.unlink(f.name)
