"""C07 - document metadata is found, read and removed exactly."""
import os, re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, cli

BINS = ["worker"]
RULE = ("Metadata blocks are built from generated key/value data in each notation (YAML with plain, quoted, list and nested values; MultiMarkdown lines; Pandoc title lines) in front of generated bodies that themselves hold rules, "
        "'---' lines, key-like lines and headings. Extraction must return exactly the data and exactly the body, converting the whole must equal converting the body, a file of the same text must load to the same data, and documents that "
        "start with anything else must come back untouched. Non-trivial: the document holds at least one key, or (no-metadata documents) a key-like line.")
ASSUMPTIONS = ["lines below 1000 bytes", "the YAML library is present, as in the project's build"]

kword = gens.uword
key = st.one_of(kword, st.builds(lambda a, b: a + " " + b, kword, kword), st.builds(lambda a, b: a + "-" + b, kword, kword), st.builds(lambda a, b: (a + "_" + b).title(), kword, kword), kword.map(str.upper))
plainval = st.one_of(st.lists(gens.uword, min_size=1, max_size=5).map(" ".join), st.integers(0, 9999).map(str), st.sampled_from(["é à ü", "中文 test", "a/b.c", "x (y) z", "it's", "semi;colon", "a, b, c", "v1.2-beta", "50% off", "q=1&r=2", "true", "2024-03-15", "x_y*z"]))
# values that need quoting in YAML but are plain text for MultiMarkdown
hardval = st.one_of(plainval, st.sampled_from(["a: b", "http://e.com/x?y=1#z", "12:30:45", "a #b", '"quoted"', "'q'", "say \"hi\" now", "[x]", "{y}", "- dash", "* star", "& amp", "!bang", "% pct", "@at", "back\\slash", "a:b", "tail:", "---", "..."]))


def dq(v): return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
def sq(v): return "'" + v.replace("'", "''") + "'"


SAFE = re.compile(r"^[A-Za-z0-9é中][^:#\"\\\[\]{}]*$")


@st.composite
def yaml_tree(draw, depth=0):
    """-> lines, flat items"""
    lines, flat = [], {}
    names = draw(st.lists(key, min_size=1, max_size=5 if depth == 0 else 3, unique_by=lambda s: s.lower().replace(" ", "")))
    for k in names:
        kind = draw(st.sampled_from(["s", "s", "s", "s", "seq", "flow", "map"] if depth < 2 else ["s"]))
        if kind == "s":
            v = draw(hardval); style = draw(st.sampled_from(["p", "d", "s"]))
            if style == "p" and not (SAFE.match(v) and not v.endswith(" ")): style = "d"
            lines.append(k + ": " + {"p": v, "d": dq(v), "s": sq(v)}[style]); flat[k] = v
        elif kind in ("seq", "flow"):
            vs = draw(st.lists(gens.uword, min_size=1, max_size=4))
            if kind == "flow": lines.append(k + ": [" + ", ".join(vs) + "]")
            else: lines.append(k + ":"); lines += ["  - " + v for v in vs]
            flat[k] = ", ".join(vs)
        else:
            sl, sf = draw(yaml_tree(depth + 1))
            lines.append(k + ":"); lines += ["  " + l for l in sl]
            for a, b in sf.items(): flat[k + "." + a] = b
    return lines, flat


bodyline = st.one_of(st.lists(gens.uword, min_size=1, max_size=6).map(" ".join), st.sampled_from(
    ["# Head", "## Head: two", "Note: this is text", "Key: value", "- item", "1. item", "> quote", "---", "...", "***", "", "", "    code: x", "| a | b |", "% pct", "* star", "[a](b)", "a:b", "<div>x</div>", "`a: b`", "===", "```", "-- -", "----"]))
body = st.lists(bodyline, max_size=8).map(lambda l: "\n".join(l) + ("\n" if l else ""))


def items(r): 
    r = [None if x is None else x.decode("utf-8", "surrogateescape") for x in r]
    return r[0], list(zip(r[1::2], r[2::2]))


def check_items(got, want, src):
    d = {}
    for k, v in got:
        if k in d: raise Violation("key %r returned twice\nfor %r" % (k, src))
        d[k] = v
    if d != want: raise Violation("metadata of %r:\n%r\nexpected\n%r" % (src, d, want))


def same_body(got, after, src):
    # the end-of-line of the closing line itself (and spaces before it) may or may not be consumed
    if got != after and re.sub(r"\A[ \t]*\n", "", got) != after:
        raise Violation("body of %r:\n%r\nexpected\n%r" % (src, got, after))


@st.composite
def yaml_doc(draw):
    lines, flat = draw(yaml_tree())
    if draw(st.booleans()): lines.insert(draw(st.integers(0, len(lines))) if all(not l.startswith((" ", "-")) and not l.endswith(":") for l in lines) else 0, "# comment: no")
    return dict(kind="yaml", head="---\n" + "\n".join(lines) + "\n" + draw(st.sampled_from(["---", "---", "---  ", "---\t", "..."])), nl=True, flat=flat, body=draw(body))


@st.composite
def mmd_doc(draw):
    ks = draw(st.lists(key, min_size=1, max_size=5, unique_by=lambda s: s.lower().replace(" ", "")))
    flat = {}; lines = []
    for k in ks:
        v = draw(hardval.filter(lambda v: "[" not in v and not v.startswith("http"))) if draw(st.integers(0, 3)) else draw(plainval)
        lines.append(k + ":" + draw(st.sampled_from([" ", " ", "  ", "\t"])) + v + draw(st.sampled_from(["", "", " "]))); flat[k] = v
    return dict(kind="mmd", head="\n".join(lines) + "\n", nl=True, flat=flat, body=draw(body))


@st.composite
def pandoc_doc(draw):
    vs = draw(st.lists(hardval.filter(lambda v: v.strip() == v), min_size=1, max_size=3))
    b = draw(body)
    if len(vs) < 3: b = re.sub(r"\A%.*\n", "", b)
    return dict(kind="pandoc", head="".join("% " + v + "\n" for v in vs), nl=False, flat=dict(zip(["title", "author", "date"], vs)), body=b)


meta_doc = st.one_of(yaml_doc(), yaml_doc(), mmd_doc(), mmd_doc(), pandoc_doc())


def t_extract(case, ctx):
    src = case["head"] + ("\n" if case["nl"] else "") + case["body"]
    if case["kind"] == "pandoc" and case["body"].startswith("%"): return
    rest, got = items(ctx.w.call("meta_extract", src))
    check_items(got, case["flat"], src)
    same_body(rest, case["body"], src)
    ctx.label(case["kind"]); ctx.nt()
    if True:
        p = os.path.join(ctx.scratch, "m.txt"); cli.put(p, case["head"] + "\n")
        r = [x.decode("utf-8", "surrogateescape") for x in ctx.w.call("meta_file", p)]
        check_items(list(zip(r[0::2], r[1::2])), case["flat"], "(file) " + case["head"])


nometa_first = st.one_of(st.lists(gens.uword, min_size=1, max_size=5).map(" ".join), st.sampled_from(
    ["# Head", "# Head: sub", "- item: x", "* a: b", "1. one: two", "<!-- c: d -->", "http://e.com: x", "<http://e.com>: y", "a:b", "[a](b): c", "{: .cls}", "{{TOC}}", "*[AB]: Alpha Beta", "text without", "---", "----", "--- x", "> q", "![i](j): k", "key:", "+ plus: q"]))


def t_none(case, ctx):
    src = case["first"] + "\n" + case["body"]
    ls = src.split("\n")
    if case["first"] == "---" and any(re.match(r"(---|\.\.\.)[ \t]*$", l) for l in ls[1:]): return
    rest, got = items(ctx.w.call("meta_extract", src))
    if got: raise Violation("metadata %r found in %r" % (got, src))
    if rest != src: raise Violation("text %r became %r without any metadata" % (src, rest))
    ctx.nt(": " in src)


def t_conv(case, ctx):
    """the converted document shows nothing of the metadata and all of the body"""
    b = case["body"]
    mode = case["mode"]
    # a body that itself starts like metadata would be read as such when converted alone
    b = "Zed starts\n\n" + b
    src = case["head"] + ("\n" if case["nl"] else "") + b
    if case["kind"] == "pandoc": ctx.label("pandoc")
    h1, h2 = ctx.w.conv(src, mode=mode), ctx.w.conv(b, mode=mode)
    if h1 != h2: raise Violation("with metadata %r:\n%r\nwithout\n%r" % (src, h1, h2))
    ctx.nt()


def t_plain_modes(case, ctx):
    """CommonMark and GFM have no metadata: nothing is removed"""
    src = case["head"] + ("\n" if case["nl"] else "") + case["body"]
    h = ctx.w.conv(src, mode=case["mode"])
    txt = re.sub(r"<[^>]*>", "", h).lower()
    for k, v in case["flat"].items():
        ws = re.findall(r"[a-z]{4,}", (v if case["kind"] == "pandoc" else k).lower())
        if any(w not in txt for w in ws): raise Violation("mode %d lost %r of %r: %r" % (case["mode"], k, src, h))
    ctx.nt()


@st.composite
def lookup(draw):
    ks = draw(st.lists(key, min_size=1, max_size=5, unique_by=lambda s: s.lower().replace(" ", "")))
    its = [(k, draw(plainval)) for k in ks]
    k = draw(st.one_of(st.sampled_from(ks), key))
    how = draw(st.sampled_from(["same", "upper", "lower", "nospace", "extraspace"]))
    q = {"same": k, "upper": k.upper(), "lower": k.lower(), "nospace": k.replace(" ", ""), "extraspace": " ".join(k)}[how]
    return dict(items=its, q=q)


def t_lookup(case, ctx):
    n = lambda s: s.lower().replace(" ", "")
    exp = next((v for k, v in case["items"] if n(k) == n(case["q"])), None)
    r = ctx.w.call("meta_get", case["q"], *[x for kv in case["items"] for x in kv])[0]
    r = None if r is None else r.decode("utf-8", "surrogateescape")
    if r != exp: raise Violation("lookup of %r in %r: %r, expected %r" % (case["q"], case["items"], r, exp))
    ctx.nt(exp is not None)


PROPS = [Prop("extract", lambda: meta_doc, t_extract, 4000, 120000),
         Prop("none", lambda: st.fixed_dictionaries(dict(first=nometa_first, body=body)), t_none, 2400, 60000),
         Prop("conv", lambda: st.tuples(meta_doc, st.sampled_from([1 + 1, 3, 4])).map(lambda t: dict(t[0], mode=t[1])), t_conv, 1600, 40000),
         Prop("plain-modes", lambda: st.tuples(meta_doc, st.sampled_from([0, 1])).map(lambda t: dict(t[0], mode=t[1])), t_plain_modes, 800, 20000),
         Prop("lookup", lookup, t_lookup, 1600, 40000)]
