"""C03 - CommonMark mode is CommonMark; GFM mode is GFM."""
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens

BINS = ["worker"]
RULE = ("Documents built from every CommonMark construct plus the syntax of all other dialects are converted in CommonMark mode (and, from a GFM grammar, "
        "in GFM mode) and compared byte for byte with the reference library's own rendering under the same rendering flags. Non-trivial: the reference "
        "rendering contains at least one element other than <p>.")
ASSUMPTIONS = ["libcmark-gfm is the reference implementation", "Liquid tags ({% ... %}) and, in GFM mode, emoji, bare e-mail addresses/URLs, table extension markers and captions are outside the domain"]
PRE, UNSAFE, HARD, UTF8, LIB, SMART, NOBR = 1 << 11, 1 << 17, 1 << 2, 1 << 9, 1 << 12, 1 << 10, 1 << 4


def flags(o, gfm):
    f = UTF8
    if o.get("github_pre_lang", 1): f |= PRE
    if o.get("unsafe"): f |= UNSAFE | LIB
    if o.get("hardbreaks", 1 if gfm else 0): f |= HARD
    if o.get("enable_smart_typography"): f |= SMART
    if o.get("nobreaks"): f |= NOBR
    return f


def norm(h):
    """white space inside a tag, and between two adjacent tags when it includes a line break (except inside <pre>), is layout"""
    h = re.sub(r"<(?![/!?])[^>]*(>|$)", lambda m: re.sub(r"\s+(?=>|$)", "", re.sub(r"[ \t\n\v\f\r]+", " ", m.group(0))), h)
    return re.sub(r"(?is)(<pre(?=[\s>]).*?(?=</pre|$))|>[ \t\r\n]*\n[ \t\r\n]*(?=<)", lambda m: m.group(1) or ">\n", h.rstrip("\n "))


def check(case, ctx, gfm):
    t = case["t"].replace("\0", "").replace("{%", "{ %")
    o = dict(case["o"])
    a = ctx.w.conv(t, mode=1 if gfm else 0, generate_header_ids=0, **o)
    r = ctx.w.call("cmark", flags(o, gfm), "table,strikethrough,autolink,tasklist" if gfm else "", t.encode("utf-8", "surrogatepass"))[0].decode("utf-8", "surrogateescape")
    if norm(a) != norm(r):
        raise Violation("differs from the reference:\n%r\n%r" % (a, r))
    tags = set(re.findall(r"<(\w+)", r)) - {"p"}
    for x in tags: ctx.label(x)
    ctx.nt(bool(tags))


CM = ["[foo]: /url 'title'\n\n[foo]", "[foo][bar]\n\n[bar]: <u v>\n", "![a *b*](/u \"t\")", "<http://a.b?c=d>", "<a@b.co>", "* a\n\n  b\n* c\n", "- a\n - b\n  - c\n   - d\n", "1. a\n2) b\n", "10) x\n\n    y\n", "a\\\nb", "a  \nb", "Foo\n===\n", "Foo *bar\nbaz*\n---\n", "# a #\n", "#\tx\n",
      "    code\n\n\tmore\n", "``` rust info\nx\n````\n", "~~~\na\n```\n~~~~\n", "``a ` b``", "`` ` ``", "&copy; &#x41; &#0; &notreal;", "\\!\\\"\\#\\$\\%\\&", "*a _b* c_", "**a*b**c*", "_a__b_", "foo__bar__baz", "***a** b*", "<div\n  id=\"x\">\n\n*a*\n\n</div>\n", "<!-- a\n\nb -->\nc", "<?php x ?>", "<![CDATA[x]]>", "<!DOCTYPE a>", "<a b='c' d=e>", "> a\nb\n> - c\nd\n", "> ```\n> x\ny\n", "- ```\n  x\n  ```\n", "***\n", "- - -\n", "+\n\n  x\n", "[a](<b c> 'd')", "[a](b\n\"c\")", "[a]( )", "[a\n", "](", "![[a](b)](c)", "[a]: b\n[A]\n", "* * a\n", "1.\n2. x\n", "|a|b|\n|-|-|\n|c|d|\n", "[ ] x", "- [ ] x\n", "~~a~~", "www.a.com", "\t\tx\n", " \t- a\n", "é*ü*", "*ａ*b", "\u00a0*a*\u00a0", "a\u2028b"]
cmpiece = st.one_of(st.sampled_from(CM), st.sampled_from(CM), gens.frag, gens.word, st.sampled_from(["\n", "\n\n", " ", "> ", "- ", "    ", "1. ", "*", "_", "`", "[", "](x)"]))
# arbitrary nesting: prefix every line of a sub-document with a container marker


def contain(parts):
    kind, t = parts
    lines = t.split("\n")
    if kind == ">": return "\n".join("> " + l for l in lines)
    if kind == "-": return "\n".join(("- " if i == 0 else "  ") + l for i, l in enumerate(lines))
    return "\n".join(("1. " if i == 0 else "   ") + l for i, l in enumerate(lines))


cmdoc = st.recursive(st.lists(cmpiece, max_size=8).map("".join),
                     lambda ch: st.one_of(st.tuples(st.sampled_from(">-1"), ch).map(contain), st.lists(ch, max_size=3).map("\n\n".join), st.lists(ch, max_size=3).map("\n".join)), max_leaves=5)
copts = st.fixed_dictionaries({}, optional={"unsafe": st.integers(0, 1), "github_pre_lang": st.integers(0, 1), "hardbreaks": st.integers(0, 1), "enable_smart_typography": st.integers(0, 1), "nobreaks": st.integers(0, 1)})

# GFM: plain prose pieces, plain tables, task lists, strikethrough
gw = st.sampled_from(["alpha", "beta", "*it*", "**bo**", "~~gone~~", "`x`", "[li](u)", "![im](p)", "a\\_b", "&amp;", "ü", "it's", "\"q\"", "5 < 6", "x^2", "a_b_c", "==m==", "{++i++}", "$m$", "[[w]]", "<b>z</b>"])
# (a line that starts with a bracket may be a table caption: outside the domain)
gl = st.lists(gw, min_size=1, max_size=5).map(" ".join).map(lambda s: "so " + s if s.startswith("[") else s)
gcell = st.lists(st.sampled_from(["one", "two", "*it*", "**bo**", "`x`", "[li](u)", "a\\|b", "~~s~~", "12", "ü", "<i>z</i>"]), min_size=1, max_size=3).map(" ".join)


@st.composite
def gtable(draw):
    n = draw(st.integers(2, 4))
    rows = [draw(st.lists(gcell, min_size=n, max_size=n)) for _ in range(draw(st.integers(2, 5)))]
    al = [draw(st.sampled_from(["---", ":--", "--:", ":-:", "-----"])) for _ in range(n)]
    out = ["| " + " | ".join(rows[0]) + " |", "| " + " | ".join(al) + " |"] + ["| " + " | ".join(r) + " |" for r in rows[1:]]
    return "\n".join(out) + "\n"


gblock = st.one_of(gl.map(lambda s: s + "\n"), st.lists(gl, min_size=1, max_size=3).map(lambda l: "\n".join(l) + "\n"), gtable(), gtable(),
                   st.lists(st.tuples(st.sampled_from(["- ", "- [ ] ", "- [x] ", "  - "]), gl), min_size=1, max_size=4).map(lambda l: "".join(a + b + "\n" for a, b in l)),
                   st.builds(lambda n, s: "#" * n + " " + s + "\n", st.integers(1, 6), gl), st.lists(gl, min_size=1, max_size=2).map(lambda l: "".join("> " + x + "\n" for x in l)),
                   gl.map(lambda s: "```c\n" + s + "\n```\n"), gl.map(lambda s: "    " + s + "\n"), st.just("---\n"), gl.map(lambda s: "1. " + s + "\n2. " + s + "\n"))
gdoc = st.lists(gblock, min_size=1, max_size=6).map("\n".join)

PROPS = [
    Prop("commonmark", lambda: st.fixed_dictionaries({"t": cmdoc, "o": copts}), lambda c, x: check(c, x, False), 14000),
    Prop("commonmark-foreign", lambda: st.fixed_dictionaries({"t": gens.doc, "o": copts}), lambda c, x: check(c, x, False), 6000),
    Prop("gfm", lambda: st.fixed_dictionaries({"t": gdoc, "o": copts}), lambda c, x: check(c, x, True), 8000),
]
