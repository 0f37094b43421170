"""C20 - the index lists exactly the marked terms."""
import os, re, shutil
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import cli

BINS = ["worker", "apex"]
RULE = ("Texts of index marks of the three syntaxes, valid and malformed, are read and compared with a reference parser (terms, sub-terms, primary flag, order) and the generated index with a reference index; documents with marks in every place are converted and compared with the same document in which a word stands for each mark. Non-trivial: at least two entries.")
ASSUMPTIONS = ["terms are grouped under their first ASCII letter or digit", "parameters of {^...} other than a sub-term after the first space or comma are not used"]
WS = " \t\n\v\f\r"
VALID = re.compile(r"[A-Za-z0-9\-_/.,:;'\" \x80-\U0010ffff]")


def valid(s): return all(VALID.match(c) for c in s)


def strip_star(s): return s.replace("*", "")


def parse(text, mm=True, ti=True, lp=True):
    """reference parser: pieces and entries (item, subitem, primary)"""
    out, ents, cur, i = [], [], "", 0
    while i < len(text):
        e, n, keep = None, 0, ""
        c = text[i]
        if c == "(" and mm:
            m = re.compile(r"\(!(!?+)([^,)]+)(?:,[ \t\n\v\f\r]*([^)]*))?\)").match(text, i)
            if m and valid(m[2].replace("!", "")) and valid(m[3] or "") and m[2].strip(WS):
                e, n = (m[2].strip(WS), (m[3] or "").strip(WS) if m[3] else None, bool(m[1])), m.end() - i
        if not e and c == "[" and ti:
            m = re.compile(r"\[([^\[\]\n]+)\]\{\^([^}\n]*)\}").match(text, i)
            if m and m[1].strip(WS): e, n, keep = (m[1].strip(WS), sub_of(m[2]), False), m.end() - i, m[1]
        if not e and c == "{" and ti:
            m = re.compile(r"\{\^([^}\n]*)\}").match(text, i)
            if m:
                w = re.search(r"[A-Za-z0-9_\-\x80-\U0010ffff]+\Z", text[:i].rstrip(WS))
                if w: e, n = (w[0], sub_of(m[1]), False), m.end() - i
        if not e and c == "{" and lp:
            m = re.compile(r'\{i:[ \t]*(?:"((?:\\[\s\S]|[^"\\])*)"[ \t]*|([^"}\n \t][^}\n]*))\}').match(text, i)
            if m and m[1] is not None:
                a, _, b = m[1].partition("!")
                if "!" in m[1]: e = (strip_star(a.strip(WS)), strip_star(b.strip(WS)), False)
                else: e = (strip_star(a).strip(WS), None, False)
                if not e[0]: e = None
                n = m.end() - i
            elif m and valid(m[2]) and m[2].strip(WS): e, n = (m[2].strip(WS), None, False), m.end() - i
        if e:
            cur += keep
            out.append(cur)
            cur = ""
            ents.append(e)
            i += n
        else:
            cur += c
            i += 1
    return out + [cur], ents


def sub_of(params):
    m = re.search(r"[ ,]", params)
    if not m: return None
    return params[m.end():].strip(WS) or None


def esc(s):
    return re.sub(r"&(?!#?[A-Za-z0-9]+;)", "&amp;", s).replace("<", "&lt;").replace(">", "&gt;")


def letter(item):
    m = re.search(r"[A-Za-z0-9]", item)
    return m[0].upper() if m else "?"


def index_html(ents, group):
    """ents: (item, sub, primary) in document order"""
    if not ents: return ""
    low = lambda s: s.encode("utf-8", "surrogateescape").lower()
    order = sorted(range(len(ents)), key=lambda n: (letter(ents[n][0]), low(ents[n][0]), ents[n][1] is not None, low(ents[n][1] or ""), n))
    o = '<h1 id="index-section">Index</h1>\n<div class="index">\n' + ("" if group else "<ul>\n")
    cur = None
    for n in order:
        item, sub, prim = ents[n]
        if group and letter(item) != cur:
            if cur: o += "</ul>\n</dd>\n</dl>\n"
            cur = letter(item)
            o += "<dl>\n<dt>%s</dt>\n<dd>\n<ul>\n" % cur
        a = ' <a class="index-return" href="#idxref-%d"><sup>[go]</sup></a>' % n
        o += "<li>\n" + esc(item) + (" <strong>%s</strong>" % a if prim else a) + ("<ul>\n<li>\n%s%s</li>\n</ul>\n" % (esc(sub), a) if sub is not None else "") + "</li>\n"
    return o + ("</ul>\n</dd>\n</dl>\n" if group else "</ul>\n") + "</div>\n"


def norm(h): return re.sub(r"\s+", " ", re.sub(r"\s*(</?(?:ul|li|dl|dd|dt|div|h1|p|strong)\b[^>]*>)\s*", r"\1", h)).strip()


# ---- the text pass and the index
term = st.one_of(st.builds(lambda a, b: "internationalisation of the %s%s" % (a, b), st.sampled_from(["a", "b", "ab"]), st.sampled_from(["", "c", "d"])), st.sampled_from(["firmware", "Protocol", "protocol", "apple", "Apple pie", "x-y_z", "C++", "C/C++", "3D", "naïve", "Émile", "-dash", "été", "a.b", "O'Hara", "zeta", "Zeta", "zoo", "b", "B", "AT&T", "x < y", "AT&amp;T", "*it*", "**bo** x", "T" * 300, "a b c d e f g h i j k", ": x", "9", "10", "!", "q!r"]),
                 st.text("abAB zéñ-_/.,:;'1", min_size=1, max_size=8))
mark = st.one_of(
    st.builds(lambda p, t, s, w: "(!%s%s%s)" % (p, t, ("," + w + s) if s is not None else ""), st.sampled_from(["", "", "!"]), term, st.one_of(st.none(), term, st.just("")), st.sampled_from([" ", "", "  "])),
    st.builds(lambda t, p: "[%s]{^%s}" % (t, p), term, st.sampled_from(["", "", "x", "x sub", "a, b c", " s", ","])),
    st.builds(lambda t, p, w: "%s%s{^%s}" % (t, w, p), term, st.sampled_from(["", "", "x", "see also", ", s"]), st.sampled_from(["", "", "", " "])),
    st.builds(lambda t, w: "{i:%s%s}" % (w, t), term, st.sampled_from([" ", "", "  "])),
    st.builds(lambda t, s, w: '{i: "%s%s"%s}' % (t.replace('"', ""), "!" + s.replace('"', "") if s else "", w), term, st.one_of(st.none(), term), st.sampled_from(["", "", " "])))
junk = st.sampled_from(["(!)", "(!!)", "(! )", "(!a", "{^", "{^}", "{i:}", "{i: ", "{i: \"x}", "[]{^}", "[ ]{^}", "(!a\nb)", "(!a, b\nc)", "{^a\nb}", "(a!b)", "( !a)", "{ ^}", "{I: x}", "[a][b]{^}", "[[a]{^}", "(!a(b))", "(!x@y)", "!", "(", "[", "{", "{i:a<b}", "(!!!x)", "(!a,,b)", "(!,a)"])
word = st.sampled_from(["word ", "and ", "é", " ", "\n", "x", ". ", ", ", "(see ", ") ", "long " * 60, "a-b"])
text_s = st.fixed_dictionaries({"t": st.lists(st.one_of(mark, mark, junk, word), min_size=1, max_size=10).map("".join), "g": st.booleans(), "s": st.sampled_from([[1, 1, 1], [1, 1, 1], [1, 1, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 1, 1], [1, 0, 1]])})


def t_text(case, ctx):
    t = case["t"]
    o = "mode=4\nenable_indices=1\ngroup_index_by_letter=%d\nenable_mmark_index_syntax=%d\nenable_textindex_syntax=%d\nenable_leanpub_index_syntax=%d\n" % (case["g"], *case["s"])
    r = [None if x is None else x.decode("utf-8", "surrogateescape") for x in ctx.w.call("index", o, t)]
    frags, ents = parse(t, *case["s"])
    got = {}
    for i in range(2, len(r), 4):
        m = re.search(r"(\d+)\Z", r[i + 3] or "")
        if not m or r[i + 3] in got: raise Violation("text %r: anchors %r" % (t, r))
        got[r[i + 3]] = (r[i], r[i + 1] if r[i + 1] != "!null" else None, r[i + 2] == "1")
    want = {"idxref-%d" % n: e for n, e in enumerate(ents)}
    if got != want: raise Violation("text %r\nentries %r\nexpected %r" % (t, got, want))
    if len(ents) > 1: ctx.nt(t[:300])
    if ents:
        pat = re.escape(frags[0]) + "".join(r"[^\n]{0,30}?idxref-%d(?!\d)[^\n]{0,30}?" % n + re.escape(f) for n, f in enumerate(frags[1:]))
        if not re.fullmatch(pat, r[0] or ""): raise Violation("text %r\nbecame %r\nexpected marks between %r" % (t, r[0], frags))
    elif r[0] not in (None, t, "!null"): raise Violation("text without marks %r became %r" % (t, r[0]))
    w = index_html(ents, case["g"])
    if norm(r[1] or "") != norm(w): raise Violation("text %r\nindex %r\nexpected %r" % (t, norm(r[1] or ""), norm(w)))


# ---- documents
safe = st.sampled_from(["firmware", "programming-zeta", "programming-alpha", "programming-beta", "Programming-alphabet", "Protocol", "protocol", "apple", "Apple", "beta", "x-y", "naïve", "3D", "zeta", "Long" * 40])
dmark = st.one_of(
    st.builds(lambda p, t, s: ["", "(!%s%s%s)" % (p, t, ", " + s if s else ""), [t, s, bool(p)]], st.sampled_from(["", "", "!"]), safe, st.one_of(st.none(), safe)),
    st.builds(lambda t: [t, "[%s]{^}" % t, [t, None, False]], st.one_of(safe, st.sampled_from(["key combo", "two words here"]))),
    st.builds(lambda t, s: [t, t + "{^%s}" % (", " + s if s else ""), [t, s, False]], safe, st.one_of(st.none(), safe)),
    st.builds(lambda t: ["", "{i: %s}" % t, [t, None, False]], safe),
    st.builds(lambda t, s: ["", '{i: "%s%s"}' % (t, "!" + s if s else ""), [t, s, False]], st.one_of(safe, st.sampled_from(["x < y", "AT&T", "*it*al"])), st.one_of(st.none(), safe)))
plain = st.sampled_from(["word", "*em*", "**b**", "`(!x) y{^} {i: z}`", "a &amp; b", "<b>x</b>", "[link](http://e.com/)", "1 < 2", "http://e.com/x", "(see", "end)", "x_y", "\\(!no\\)", "Wow (!)", "![i](p.png)"])
cx = st.sampled_from([("", ""), ("", ""), ("(", ")"), ("*", "*"), ("", "."), ("", ", x"), ("**", "**"), ("", "?"), ("~~", "~~")])
item = st.one_of(plain, st.builds(lambda m, x: {"m": m, "x": list(x)}, dmark, cx), st.builds(lambda m: {"m": m, "x": ["", ""]}, dmark))
blk = st.tuples(st.sampled_from(["p", "p", "h", "l", "q", "t", "d", "f", "n", "c", "k"]), st.lists(item, min_size=1, max_size=5)).map(list)
doc_s = st.fixed_dictionaries({"d": st.lists(blk, min_size=1, max_size=6), "mode": st.sampled_from([4, 4, 4, 2, 1, 0, 3]), "g": st.booleans(), "no": st.sampled_from([0, 0, 1]), "mark": st.sampled_from([None, None, "mid", "end"]), "unsafe": st.booleans(), "ids": st.booleans()})


def build(case, f):
    out = []
    for i, (k, items) in enumerate(case["d"]):
        t = " ".join(x if isinstance(x, str) else x["x"][0] + f(x["m"]) + x["x"][1] for x in items)
        b = {"p": t, "h": "## Head %s" % t, "l": "- item\n- " + t, "q": "> " + t, "t": "| h | i |\n|---|---|\n| %s | z |" % t, "d": "term%d\n: def %s" % (i, t), "f": "::: {.note}\n%s\n:::" % t, "n": "1. one\n2. " + t, "c": "```\n(!x) a{^} {i: t}\n```", "k": "    (!x) a{^}"}[k]
        out.append(b if k != "k" else "Par.\n\n" + b)
    return out


def t_doc(case, ctx):
    if case["mode"] != 4: case = dict(case, d=[[k if k not in "df" else "p", it] for k, it in case["d"]])
    if case["mode"] == 0: case = dict(case, d=[[k if k != "t" else "p", it] for k, it in case["d"]])
    case = dict(case, d=[[k, ["w"] if k in "ck" else it] for k, it in case["d"]])
    marks = [x["m"] for k, it in case["d"] if k not in "ck" for x in it if not isinstance(x, str)]
    num = {}
    ctr = iter(range(10 ** 6))

    def word(m): num[id(m)] = n = next(ctr); return m[0] + "zqi%dzq" % n

    def full(f):
        b = build(case, f)
        if case["mark"] and case["unsafe"]: b.insert(len(b) if case["mark"] == "end" else len(b) // 2, "<!--INDEX-->")
        return "zqstart.\n\n" + "\n\n".join(b) + "\n\nzqend.\n"
    o = "mode=%d\nunsafe=%d\ngenerate_header_ids=0\nenable_citations=0\nenable_smart_typography=0\ngroup_index_by_letter=%d\nsuppress_index=%d\n" % (case["mode"], case["unsafe"], case["g"], case["no"])
    on = o + ("" if case["mode"] == 4 else "enable_indices=1\nenable_mmark_index_syntax=1\nenable_textindex_syntax=1\nenable_leanpub_index_syntax=1\n")
    src = full(lambda m: m[1])
    want = ctx.w.call("conv", o + "enable_indices=0\n", full(word))[0].decode("utf-8", "surrogateescape")
    got = ctx.w.call("conv", on, src)[0].decode("utf-8", "surrogateescape")
    ents = [None] * len(num)
    for k, it in case["d"]:
        if k in "ck": continue
        for x in it:
            if isinstance(x, str): continue
            n = num[id(x["m"])]
            want = want.replace("zqi%dzq" % n, '<span class="index" id="idxref-%d"></span>' % n)
    # marks in code blocks have no number, the others are numbered in document order
    m2 = [m for m in marks]
    for m in m2:
        t, s, p = m[2]
        ents[num[id(m)]] = (strip_star(t) if m[1].startswith('{i: "') else t, s, p)
    if None in ents: raise AssertionError("numbering")
    if len(ents) > 1: ctx.nt(src[:400])
    if ents and not case["no"]:
        w = index_html(ents, case["g"])
        if "<!--INDEX-->" in want: want = want.replace("<!--INDEX-->", w, 1)
        else: want += w
    if norm(got) != norm(want): raise Violation("mode %d document %r\ngave %r\nexpected %r" % (case["mode"], src, norm(got)[:6000], norm(want)[:6000]))
    # switched off: the marks are text
    off = ctx.w.call("conv", o + "enable_indices=0\n", "zqstart.\n\nSome (!term, x) here.\n")[0]
    if b"Some (!term, x) here." not in off: raise Violation("indices off: %r" % off)
    heads = [[k, [x if isinstance(x, str) else dict(x, x=["", ""]) for x in it]] for k, it in case["d"] if k == "h"]
    if heads and case["ids"] and case["mode"] != 3:   # heading ids do not depend on marks
        ids = lambda t: re.findall(r'<h2 id="([^"]*)"', ctx.w.call("conv", on.replace("generate_header_ids=0", "generate_header_ids=1"), t)[0].decode("utf-8", "surrogateescape"))
        a, b = (ids("zqstart.\n\n" + "\n\n".join(build({"d": heads}, f))) for f in (lambda m: m[1], lambda m: m[0]))
        if a != b: raise Violation("heading ids %r, without marks %r: %r" % (a, b, heads))


# ---- the program
cli_s = st.fixed_dictionaries({"m": st.lists(dmark, min_size=1, max_size=4), "how": st.sampled_from([[], ["--indices", "--no-index"], ["--mode", "unified", "--no-indices"], ["--indices"], ["--mode", "unified"], ["--mode", "mmd", "--indices"], ["--mode", "mmd"], "meta", "metayes", "metano"]), "std": st.booleans()})


def t_cli(case, ctx):
    d = os.path.join(ctx.scratch, "c20p")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    how = case["how"]
    args = how if isinstance(how, list) else ["--mode", "unified"] if how == "metano" else []
    src = {"meta": "---\nindices: true\nsuppress-index: true\n---\n\n", "metayes": "---\nindices: true\n---\n\n", "metano": "---\nindices: false\n---\n\n"}.get(how if isinstance(how, str) else "", "") + "zq " + " and ".join(m[1] for m in case["m"]) + " end.\n"
    cli.put(os.path.join(d, "d.md"), src)
    rc, out, err = cli.run(ctx, args + (["-s"] if case["std"] else []) + ["d.md"], cwd=d)
    if rc: raise Violation("exit code %d: %s" % (rc, err))
    if len(case["m"]) > 1: ctx.nt(repr(args))
    off = "--no-indices" in args or how == [] or args == ["--mode", "mmd"] or how == "metano"
    spans = re.findall(r'<span class="index" id="([^"]*)"></span>', out)
    if off:
        if spans or "index-section" in out: raise Violation("arguments %r source %r: index although off\n%s" % (args, src, out[-1500:]))
        return
    if spans != ["idxref-%d" % i for i in range(len(case["m"]))]: raise Violation("arguments %r source %r: anchors %r" % (args, src, spans))
    ents = [(strip_star(m[2][0]) if m[1].startswith('{i: "') else m[2][0], m[2][1], m[2][2]) for m in case["m"]]
    w = "" if "--no-index" in args or how == "meta" else norm(index_html(ents, True))
    g = norm(out[out.find('<h1 id="index-section">'):] if 'id="index-section"' in out else "")
    if not (g == w if not case["std"] else g.startswith(w) and (w or not g)): raise Violation("arguments %r source %r\nindex %r\nexpected %r" % (args, src, g, w))


PROPS = [Prop("text", lambda: text_s, t_text, 8000, 200000), Prop("documents", lambda: doc_s, t_doc, 2000, 60000), Prop("program", lambda: cli_s, t_cli, 300, 8000)]
