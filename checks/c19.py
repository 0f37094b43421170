"""C19 - abbreviations: every definition is taken, every whole-word use in text is marked, nothing else changes."""
import html as H
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens

BINS = ["worker"]
RULE = ("Definitions in the three syntaxes (up to dozens, some names the beginning of others, expansions of up to thousands of bytes and with special characters) and uses of the names in every place (text, inside longer words, tags, attributes, code, comments, references by name), "
        "run through extraction and replacement and through whole conversions, compared with a reference extraction and replacement. Non-trivial: at least one use that is marked and one look-alike that is not.")
ASSUMPTIONS = ["a name is defined once", "names and expansions contain no line break or closing bracket"]
NAMES = ["HTML", "CSS", "MMD", "API", "HT", "HTM", "JS", "A", "A B", "A B C", "R&D", "C++", "x-y", "W3C", "3D", "q", "<T>", "Ünï", "I/O", "e.g."]
WORDS = ["HTMLX", "XHTML", "html", "HTML5", "aCSS", "APIs", "MMDs", "alpha", "beta", "C", "B", "R", "D", "R&", "W3", "T"]


def tesc(s):
    return re.sub(r'&(?!#?[A-Za-z0-9]{1,33};)|[<>"]', lambda m: {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;"}[m.group()], s)


def alnum(c):
    return c.isascii() and c.isalnum()


def extract(lines):
    """lines: list of [kind, ...]; returns the remaining text and the abbreviations in order of precedence"""
    inl, defs, out = [], [], []
    for l in lines:
        if l[0] == "def":
            defs.append((l[2], l[3]))
        else:
            s = ""
            for p in l[1]:
                if p[0] == "inl":
                    inl.insert(0, (p[1], p[2]))
                    s += p[1]
                else: s += p[1]
            out.append(s + "\n")
    return "".join(out), inl + defs


def source(lines):
    o = ""
    for l in lines:
        if l[0] == "def":
            o += (["*[%s]: %s", "[>%s]: %s", "*[%s]:%s", "*[ %s ]:   %s  "][l[1]] % (l[2], l[3])) + "\n"
        else: o += "".join("[>(%s) %s]" % (p[1], p[2]) if p[0] == "inl" else p[1] for p in l[1]) + "\n"
    return o


def mark(n, e):
    return '<abbr title="%s">%s</abbr>' % (tesc(e), tesc(n))


def replace(pieces, abbrs):
    """pieces of HTML: ['t', raw text], ['ref', name] or ['m', markup]"""
    out = []
    d = {}
    for n, e in abbrs: d.setdefault(n, e)
    esc = sorted(((tesc(n), n) for n in d), key=lambda x: -len(x[0].encode()))
    html = ""
    opaque = {}
    for k, t in pieces:
        if k == "m": opaque[len(html)] = len(html) + len(t)
        html += t if k == "m" else H.escape(t, quote=False).replace('"', "&quot;") if k == "t" else "[&gt;%s]" % H.escape(t, quote=False)
    if not abbrs: return html, html
    i = 0
    while i < len(html):
        if i in opaque:
            out.append(html[i:opaque[i]])
            i = opaque[i]
            continue
        m = re.compile(r"\[&gt;([^\]\n<]*)\]").match(html, i)
        if m and H.unescape(m.group(1).strip()) in d:
            out.append(mark(H.unescape(m.group(1).strip()), d[H.unescape(m.group(1).strip())]))
            i = m.end()
            continue
        if i == 0 or not alnum(html[i - 1]):
            for e, n in esc:
                if html.startswith(e, i) and not (i + len(e) < len(html) and alnum(html[i + len(e)])):
                    out.append(mark(n, d[n]))
                    i += len(e)
                    break
            else:
                m = re.compile(r"&#?[A-Za-z0-9]{1,33};").match(html, i)
                n = m.end() if m else i + 1
                out.append(html[i:n])
                i = n
            continue
        m = re.compile(r"&#?[A-Za-z0-9]{1,33};").match(html, i)
        n = m.end() if m else i + 1
        out.append(html[i:n])
        i = n
    return html, "".join(out)


EXP = st.builds(lambda a, n: (a * n).strip(), st.sampled_from(["Hyper Text ", "Cascading \"Sheets\" ", "A < B & C > D ", "Ünï cödé ", "x", "a 'b' c ", "AT&amp;T ", "HTML in CSS "]), st.sampled_from([1, 1, 1, 1, 3, 60, 400]))
txt = st.sampled_from(NAMES + WORDS + [" ", " ", ", ", ".", "-", "/", "(", ")", "'", "\"", "é", "< ", "& ", "*", "[", "]", ":", "1"])
nm = st.sampled_from(NAMES)


def mklines(ls):
    """each name is defined once"""
    seen, out = set(), []
    for l in ls:
        if l[0] == "def":
            if l[2] in seen: continue
            seen.add(l[2])
            out.append(l)
        else:
            ps = []
            for p in l[1]:
                if p[0] == "inl":
                    if p[1] in seen:
                        ps.append(["t", p[1]])
                        continue
                    seen.add(p[1])
                ps.append(p)
            out.append(["line", ps])
    return out


line = st.lists(st.one_of(txt.map(lambda t: ["t", t]), txt.map(lambda t: ["t", t]), st.builds(lambda n, e: ["inl", n, e], nm, EXP)), min_size=0, max_size=5).map(
    lambda ps: ["line", ps])
dfn = st.builds(lambda k, n, e: ["def", k, n, e], st.integers(0, 3), nm, EXP)
lines_s = st.lists(st.one_of(dfn, dfn, line), min_size=1, max_size=10).map(mklines)
MK = ["<b>", "</b>", "<p>", "<br />", '<a href="HTML" title="CSS API">', "<code>HTML</code>", "<pre>CSS\nAPI</pre>", "<!-- HTML -->", "<script>HTML</script>", '<abbr title="x">HTML</abbr>', "<img alt='HTML > CSS'>", "<style>HTML</style>", "<title>HTML</title>", "<CODE>API</CODE>", "<textarea>q</textarea>"]
hp = st.one_of(txt.map(lambda t: ["t", t]), txt.map(lambda t: ["t", t]), nm.map(lambda n: ["t", n]), st.sampled_from(["HTML", "CSS", "API", "A B", "W3C", "q", "R&D", "<T>", "unknown"]).map(lambda n: ["ref", n]), st.sampled_from(MK).map(lambda t: ["m", t]))
fn_s = st.fixed_dictionaries({"l": lines_s, "h": st.lists(hp, min_size=1, max_size=12), "n": st.sampled_from([1, 1, 1, 50])})


def t_fn(case, ctx):
    lines = case["l"]
    # a line starts with a letter, so that no text is taken for a definition
    lines = [l if l[0] == "def" else ["line", [["t", "x "]] + l[1]] for l in lines]
    src = source(lines)
    text, abbrs = extract(lines)
    pieces = case["h"] * case["n"]
    html, exp = replace(pieces, abbrs)
    r = ctx.w.call("abbr", src, html)
    r = [None if x is None else x.decode("utf-8", "surrogateescape") for x in r]
    got = list(zip(r[2::2], r[3::2]))
    if exp != html: ctx.nt(src[:300] + " | " + html[:300])
    if r[0] != text: raise Violation("text left %r, expected %r\nsource %r" % (r[0], text, src[:2000]))
    if got != abbrs: raise Violation("abbreviations %r, expected %r\nsource %r" % (got, abbrs, src[:2000]))
    if r[1] != exp: raise Violation("replacement\n%r\nexpected\n%r\nsource %r\nhtml %r" % (r[1][:2000], exp[:2000], src[:1500], html[:1500]))


# conversions: uses in each place of a document
CON = ["para", "para", "head", "item", "quote", "cell", "em", "link", "code", "codeblock", "attr", "longer", "ref", "inline", "url", "note"]
doc_s = st.fixed_dictionaries({"d": st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["HTML", "HT", "CSS", "W3C", "API", "A B", "R&D"]), EXP), min_size=1, max_size=5, unique_by=lambda x: x[1]),
                               "b": st.lists(st.tuples(st.sampled_from(CON), st.integers(0, 4)), min_size=1, max_size=8), "top": st.booleans(), "mode": st.sampled_from([2, 3, 4, 4])})


def t_doc(case, ctx):
    m = case["mode"]
    defs = case["d"]
    dl = "".join((["*[%s]: %s", "[>%s]: %s", "*[%s]:  %s"][k] % (n, e)) + "\n" for k, n, e in defs)
    out, want, k = [], [], 0
    for kind, i in case["b"]:
        _, n, e = defs[i % len(defs)]
        k += 1
        a, b = "zqs%d" % k, "zqe%d" % k
        exp = mark(n, e)
        if kind == "head": s = "## %s %s %s" % (a, n, b)
        elif kind == "item": s = "- %s %s %s\n\nx" % (a, n, b)
        elif kind == "quote": s = "> %s %s %s" % (a, n, b)
        elif kind == "cell": s = "| h | i |\n|---|---|\n| %s %s %s | x |" % (a, n, b)
        elif kind == "em": s = "%s **%s** %s" % (a, n, b)
        elif kind == "link": s = "%s [%s](http://e.com) %s" % (a, n, b)
        elif kind == "note": s = "x[^n%d]\n\n[^n%d]: %s %s %s" % (k, k, a, n, b)
        elif kind == "code": s, exp = "%s `%s` %s" % (a, n, b), None
        elif kind == "codeblock": s, exp = "```\n%s %s %s\n```" % (a, n, b), None
        elif kind == "attr": s, exp = '%s <b title="%s">x</b> %s' % (a, n.replace("&", "&amp;"), b), None
        elif kind == "url": s, exp = "%s [x](http://e.com/%s) %s" % (a, n.replace(" ", ""), b), None
        elif kind == "longer": s, exp = "%s x%sx %s" % (a, n, b), None
        elif kind == "ref": s = "%s [>%s] %s" % (a, n, b)
        elif kind == "inline": s, exp = "%s [>(QX%d) expanded %d] %s" % (a, k, k, b), mark("QX%d" % k, "expanded %d" % k)
        else: s = "%s %s, %s" % (a, n, b)
        out.append(s + "\n")
        want.append((a, b, n, exp, kind))
    body = "\n".join(out)
    src = "Begin.\n\n" + (dl + "\n" + body if case["top"] else body + "\n" + dl)
    h = ctx.w.conv(src, m, unsafe=1, enable_smart_typography=0, generate_header_ids=0)
    for t in ("*[", "[>", "[&gt;"):
        if t in h: raise Violation("a definition or reference is left in the output\nsource %r\n%s" % (src[:1500], h[:1500]))
    for a, b, n, exp, kind in want:
        ctx.label(kind)
        g = re.search("(?s)%s\\b(.*?)%s\\b" % (a, b), h)
        if not g: raise Violation("%s (%s) is not in the output\nsource %r\n%s" % (a, kind, src[:1500], h[:1500]))
        g = g.group(1)
        if exp is None:
            if "<abbr" in g: raise Violation("%s (%s, mode %d): %r is marked: %r\nsource %r" % (a, kind, m, n, g, src[:1500]))
        else:
            if len(want) > 1: ctx.nt(src[:400])
            if g.count(exp) != 1 or g.count("<abbr") != 1: raise Violation("%s (%s, mode %d): %r gives %r, expected one %r\nsource %r" % (a, kind, m, n, g, exp, src[:1500]))


PROPS = [Prop("functions", lambda: fn_s, t_fn, 6000, 200000), Prop("documents", lambda: doc_s, t_doc, 5000, 150000)]
