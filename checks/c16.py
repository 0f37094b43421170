"""C16 - pretty-printing changes the layout of the HTML, not the document."""
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens

BINS = ["worker"]
RULE = ("Generated HTML trees (all block, inline and void elements, attributes of up to thousands of bytes and with > and quotes in them, code, scripts, style sheets, comments, tables, white space of every kind, hundreds of elements) are pretty-printed, and generated documents are converted with and without pretty; "
        "both must be the same sequence of tags, with the same content where white space counts and the same text up to white space a browser ignores; block elements of a tree must start a line, indented by their depth. Non-trivial: at least two levels of blocks or verbatim content with a blank line.")
ASSUMPTIONS = ["white space is compared as HTML 5 renders it with default styles: collapsed in text, ignored next to block tags, kept in pre, textarea, script, style and comments"]
BLOCK = set("html head body div section article nav header footer main aside h1 h2 h3 h4 h5 h6 p blockquote pre ul ol li dl dt dd table thead tbody tfoot tr th td figure figcaption details summary hr br caption colgroup col title meta link script style address form fieldset".split())
VERB = ("pre", "script", "style", "textarea")


def tokens(h):
    """tags, comments and text; content of verbatim elements as one token"""
    i = 0
    while i < len(h):
        m = re.compile(r"<!--.*?-->", re.S).match(h, i)
        if m:
            yield "c", m.group()
            i = m.end()
            continue
        m = re.compile(r"<(/?)([A-Za-z!?][^\s/>]*)((?:\s*=\s*\"[^\"]*\"|\s*=\s*'[^']*'|[^>])*)>", re.S).match(h, i)
        if m:
            name = m.group(2).lower()
            if name in VERB and not m.group(1):
                e = re.compile(r"</%s>" % name, re.I).search(h, m.end())
                if e:
                    yield "v", h[i:e.end()]
                    i = e.end()
                    continue
            yield "t", m.group()
            i = m.end()
            continue
        j = h.find("<", i + 1)
        if j < 0: j = len(h)
        yield "x", h[i:j]
        i = j


def tname(t):
    return re.match(r"</?([A-Za-z!?][^\s/>]*)", t).group(1).lower()


def canon(h):
    """what remains when white space that does not show is removed"""
    out, space, start = [], False, True      # pending space; nothing visible since the last block boundary
    for k, t in tokens(h):
        if k == "c": out.append(t)
        elif k == "v":
            if space and not start and tname(t) == "textarea": out.append(" ")
            out.append(t)
            space, start = False, tname(t) != "textarea"
        elif k == "t":
            n = tname(t)
            if n in BLOCK:
                out.append(t)
                space, start = False, True
            else:
                # a space before an inline tag shows before or after it alike: keep it pending over the tag
                out.append(t)
                if n in ("img", "input", "svg", "video", "audio", "iframe"):
                    if space and not start: out.insert(len(out) - 1, " ")
                    space, start = False, False
        else:
            for w in re.findall(r"[ \t\n\r\f]+|[^ \t\n\r\f]+", t):
                if w[0] in " \t\n\r\f": space = True
                else:
                    if space and not start: out.append(" ")
                    out.append(w)
                    space, start = False, False
    return "".join(out)


def check(a, b, what):
    x, y = canon(a), canon(b)
    if x != y:
        i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        raise Violation("%s: at %d: %r became %r\nplain %r\npretty %r" % (what, i, x[max(0, i - 60):i + 80], y[max(0, i - 60):i + 80], a[:2500], b[:2500]))


# ---- generated trees
ATTR = st.one_of(st.just(""), st.just(""), st.sampled_from([' class="a b"', " id='x'", ' title="a > b"', ' title="<p>"', " data-x='\"'", ' alt="it\'s"', " hidden", ' href="http://e.com/?a=1&amp;b=2"', ' title="a\nb"']), st.integers(1, 3000).map(lambda n: ' title="%s"' % ("t" * n)))
WS = st.sampled_from(["", "", "", " ", "\n", "\n\n", "  ", "\t", "\n\n\n", " \n "])
text = st.builds(lambda a, w, b: a + w + b, WS, st.sampled_from(["w", "two words", "a &lt; b", "x\ny", "é中", "a\n\n\nb", "&amp;", "long " * 50, "1 &gt; 0", "'q'", "a  b"]), WS)
raw = st.sampled_from(["a\n\n\n\nb", "  indented\n\tx\n", "if (a &lt; b) { }\n", "<b>x</b>\n\n\n", "\n", "", "x", "\n\n\n\n", "a" * 500 + "\n\n\n\n" + "b" * 500])
sraw = st.sampled_from(["if (a<b && c>d) {\n\n\n\n x = '<p>'; }", "p > a { }\n\n\n", "var s = \"</p>\";", "a</div>b", "\n\n"])
inl = st.deferred(lambda: st.one_of(text, text, st.builds(lambda n, a, c: "<%s%s>%s</%s>" % (n, a, c, n), st.sampled_from(["b", "em", "strong", "a", "span", "sup", "mark", "kbd", "q", "i", "abbr", "label", "picture", "dialogue-x", "hgroup-y", "p-q", "ul-item", "tdx", "preview", "scripted", "codex"]), ATTR, st.lists(inl, max_size=2).map("".join)),
                                    st.builds(lambda a, c: "<code%s>%s</code>" % (a, c), ATTR, st.sampled_from(["x", "a\n\n\nb", "a &lt;p&gt; b", " s "])), st.builds(lambda n, a, s: "<%s%s%s>" % (n, a, s), st.sampled_from(["br", "img", "input"]), ATTR, st.sampled_from(["", " /"])),
                                    st.sampled_from(["<!-- c -->", "<!-- <p>\n\n\n\n</div> -->", "<!--a>b-->"]), st.builds(lambda c: "<script>%s</script>" % c, sraw), st.builds(lambda c: "<textarea>%s</textarea>" % c, raw)))
inls = st.lists(inl, max_size=4).map("".join)


def el(n, a, w, c):
    return "<%s%s>%s%s%s</%s>%s" % (n, a, w[0], c, w[1], n, w[2])


W3 = st.tuples(WS, WS, WS)
blk = st.deferred(lambda: st.one_of(
    st.builds(el, st.sampled_from(["p", "h1", "h3", "p", "p", "div"]), ATTR, W3, inls),
    st.builds(el, st.sampled_from(["div", "section", "blockquote", "article", "details", "figure", "main"]), ATTR, W3, st.lists(blk, max_size=3).map("".join)),
    st.builds(lambda n, a, w, l: el(n, a, w, "".join(el("li", "", ("", "", x), y) for x, y in l)), st.sampled_from(["ul", "ol"]), ATTR, W3, st.lists(st.tuples(WS, st.one_of(inls, st.builds(lambda i, b: i + b, inls, blk))), max_size=3)),
    st.builds(lambda w, l: el("dl", "", w, "".join(el("dt", "", w, x) + el("dd", "", w, y) for x, y in l)), W3, st.lists(st.tuples(inls, inls), max_size=2)),
    st.builds(lambda w, l: el("table", "", w, el("tbody", "", w, "".join(el("tr", "", w, "".join(el("td", a, ("", "", ""), c) for a, c in r)) for r in l))), W3, st.lists(st.lists(st.tuples(ATTR, inls), max_size=3), max_size=3)),
    st.builds(lambda a, c, w: "<pre%s>%s</pre>%s" % (a, c, w), ATTR, raw, WS), st.builds(lambda a, c, w: "<pre><code%s>%s</code></pre>%s" % (a, c, w), ATTR, raw, WS),
    st.builds(lambda c, w: "<style>%s</style>%s" % (c, w), sraw, WS), st.builds(lambda a, w: "<hr%s />%s" % (a, w), ATTR, WS), st.builds(lambda c, w: c + w, st.sampled_from(["<!-- c -->", "<!-- \n\n\n<div> -->"]), WS)))
tree_s = st.fixed_dictionaries({"b": st.lists(blk, min_size=1, max_size=5), "n": st.sampled_from([1, 1, 1, 1, 3, 40])})


def t_tree(case, ctx):
    h = "".join(case["b"]) * case["n"]
    p = ctx.w.t2t("apex_pretty_print_html", h)
    if re.search(r"<(div|section|blockquote|article|ul|ol|li|details)[^>]*>\s*<(p|div|ul|ol|pre|blockquote|table|li)\b", h) or "\n\n\n" in h: ctx.nt(h[:300])
    if p is None: raise Violation("no output")
    check(h, p, "pretty-printed tree")
    # layout: a block starts its line, indented by its depth
    depth, pos, pre = 0, 0, ""
    for k, t in tokens(p):
        if k == "t" and tname(t) in ("div", "section", "blockquote", "article", "p", "ul", "ol", "li", "dl", "dt", "dd", "table", "h1", "h3", "details", "figure", "main", "tbody", "td", "tr"):
            close = t.startswith("</")
            if close: depth -= 1
            line = pre[pre.rfind("\n") + 1:]
            if not close and line != "  " * depth: raise Violation("layout: %r at depth %d follows %r on its line\nsource %r\npretty %r" % (t[:60], depth, line[-80:], h[:1500], p[:1500]))
            if not close: depth += 1
        pre = pre[-8000:] + t


conv_s = st.fixed_dictionaries({"t": st.one_of(gens.sdoc, gens.sdoc, gens.doc), "mode": st.sampled_from([0, 1, 2, 3, 4, 4]), "sa": st.booleans(),
                                "x": st.lists(st.sampled_from(["```\na\n\n\n\nb\n```\n", "    a\n\n\n    b\n", "![i](a.png)x\n", "<pre>\na\n\n\n b</pre>\n", "<script>\nif (a<b) x = \"<p>\";\n</script>\n", "| a | b |\n|---|---|\n| c `d` | *e* |\n| f | g |\n", "- a\n  - b\n\n    c\n", "x **b***c* `d`e\nf\n", "- [ ] t\n", "term\n: def\n", "> [!NOTE]\n> x\n", "a[^n]\n\n[^n]: note\n", "<b title=\"a > b\">c</b>d\n", "![a](b.png \"%s\")\n" % ("t" * 700)]), max_size=3)})


def t_conv(case, ctx):
    src = "\n\n".join([case["t"].replace("\0", "")] + case["x"])
    o = dict(unsafe=1, standalone=int(case["sa"]))
    a, b = ctx.w.conv(src, case["mode"], pretty=0, **o), ctx.w.conv(src, case["mode"], pretty=1, **o)
    if case["x"]: ctx.nt(src[:300])
    check(a, b, "document (mode %d, standalone %d) %r" % (case["mode"], case["sa"], src[:1500]))


PROPS = [Prop("trees", lambda: tree_s, t_tree, 6000, 250000), Prop("documents", lambda: conv_s, t_conv, 5000, 150000)]
