"""C15 - Markdown output says the same as its input."""
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import htm
from checks.c03 import norm

BINS = ["worker"]
RULE = ("Documents are generated as nested trees (paragraphs, headings of both styles, indented and fenced code, quotes, tight and loose lists of both kinds, raw HTML, tables, task lists, "
        "footnotes; emphasis, code spans, links, images, autolinks, entities, escapes, breaks), written as Markdown in varying spellings and converted to HTML, and to the Markdown of the same "
        "dialect, which is converted to HTML again: both renderings must be equal, for CommonMark and GFM also by the reference library. A second pass must not change the Markdown. "
        "Non-trivial: at least two kinds of block and one kind of inline markup.")
ASSUMPTIONS = ["rendered HTML defines the meaning of a Markdown document", "attribute lists, metadata and constructs that are HTML before parsing are outside the domain"]
MODE = {"commonmark": (0, 5), "gfm": (1, 7), "unified": (4, 3), "mmd": (2, 4), "kramdown": (3, 6)}

PLAIN = ["alpha", "beta", "gamma", "Delta", "eps", "zeta", "eta7", "theta", "x", "words"]
CODE = ["c", "a b", "x<y", "p*q*", "[l]", "a_b_c", "&amp;"]
HARDCODE = ["a`b", "`", "``", "` x", "a``b`c", " pad ", "a\\", "  "]
URLS = ["/u", "http://h.ex/p", "p/q#f", "a_b_c"]
HARDURLS = ["<a b>", "a(b)c", "a\\(b", "<>", "x&amp;y", "a\\*b", "u?a=1&b=2&copy=3", "<x\\>y>", "a\\\\b"]
TITLES = ["ti", "two words"]
HARDTITLES = ["q\\\"q", "it's", "a\\\\b", "&quot;x&quot;", "(p)", "a*b*", "&copy;"]
HARDWORDS = ["a \\* b", "1.", "2)", "x_y_z", "a &lt; b", "&amp;", "&copy;", "&lt;b&gt;", "\\*q\\*", "#h", "\\# h", "\\- d", "\\+ p", "\\1. n", "1\\. n", "http\\://e.f", "!", "\\!\\[x\\]", "\\[x\\](y)", "\\`c\\`", "\\<b>", "\\&amp;", "\\===", "\\---", "\\>", "a\\_b",
             "&#32;x", "x&#32;", "\\\\", "é", "\u4e2d", "&nbsp;", "5 * 3", "a:b", "{x}", "\\~~~", "(p)", "a.b", "~t", "[z]", "&#10;", "@m", "$5", "a^s", "=e="]


def words(hard):
    return st.sampled_from(PLAIN * (2 if hard else 1) + (HARDWORDS if hard else []))


def inline(hard, gfm, depth=2, brk=True):
    w = words(hard)
    atoms = [w, w, w]
    code = st.sampled_from(CODE + (HARDCODE if hard else []))
    atoms.append(code.map(lambda c: "```%s```" % c if not (c[0] == "`" or c[-1] == "`") else "``` %s ```" % c))
    url = st.sampled_from(URLS + (HARDURLS if hard else []))
    title = st.one_of(st.just(""), st.sampled_from(TITLES + (HARDTITLES if hard else [])).map(lambda t: ' "%s"' % t))
    if depth:
        sub = inline(hard, gfm, depth - 1, False)
        nolink = inline(hard, gfm, 0, False)
        flat = st.lists(words(hard and 1), min_size=1, max_size=2).map(" ".join)
        mark = ["*", "**", "_", "__"] + (["~~"] if gfm else [])
        atoms += [st.tuples(st.sampled_from(mark), sub).map(lambda a: a[0] + a[1] + a[0] if a[1].strip() == a[1] else a[1])] * 2
        atoms.append(st.tuples(flat, url, title).map(lambda a: "[%s](%s%s)" % a))
        atoms.append(st.tuples(flat, url, title).map(lambda a: "![%s](%s%s)" % a))
        if hard:
            atoms.append(st.tuples(nolink, st.sampled_from(mark), flat, url, title).map(lambda a: "[%s %s%s%s](%s%s)" % (a[0], a[1], a[2], a[1], a[3], a[4])))
            atoms.append(st.tuples(nolink, st.sampled_from(mark), flat, url, title).map(lambda a: "![%s %s%s%s](%s%s)" % (a[0], a[1], a[2], a[1], a[3], a[4])))
            atoms.append(st.sampled_from(["<b>q</b>", "<i class=\"q\">r</i>", "s<br/>", "t<!-- c -->", "[ref]", "[text][ref]", "[ref2][]"] + (["in*tra*word", "in**tra**word", "a**b**"] if depth == 2 else [])))
        atoms.append(st.sampled_from(["<http://h.ex/a>", "<http://h.ex/a_b?c=d>"] + (["<mailto:me@e.com>", "<me@e.com>", "<x-y:z&amp;w>"] if hard else [])))
    a = st.one_of(atoms)
    seps = [" "] * 6 + (["\n", "  \n"] if brk else []) + (["\\\n"] if brk and hard else [])
    return st.lists(st.tuples(a, st.sampled_from(seps)), min_size=1, max_size=5).map(lambda l: "".join(x + s for x, s in l)[:-len(l[-1][1])])


def ind(t, first, rest):
    return "\n".join(((first if i == 0 else rest) + l) if l or (rest.strip() or i == 0) else l for i, l in enumerate(t.split("\n")))


def blocks(hard, gfm, dialect):
    il, one = inline(hard, gfm), inline(hard, gfm, brk=False)
    para = il.map(lambda t: t)
    head = st.tuples(st.integers(1, 6), one).map(lambda a: "#" * a[0] + " " + a[1])
    setext = st.tuples(il, st.sampled_from(["===", "---"])).map(lambda a: a[0] + "\n" + a[1])
    ctext = st.lists(st.sampled_from(["x = 1", "  in", "*a*", "<b>", "", "# no", "- l", "&amp;"] + (["```", "~~~", "````", "    four", "\ttab", "a\\", "> q"] if hard else [])), min_size=1, max_size=4).map("\n".join)
    fence = st.tuples(ctext, st.sampled_from(["", "c", "py"] + (["c a=b", "x\\*y", "q&amp;r", "a`b", "\\\\"] if hard else []))).map(lambda a: "~~~~~%s\n%s\n~~~~~" % (a[1], a[0]))
    icode = ctext.filter(lambda t: t.strip("\n") == t and not t.startswith((" ", "\t"))).map(lambda t: "pre\n\n" + ind(t, "    ", "    "))
    hr = st.sampled_from(["***", "---\n" if 0 else "* * *", "___"])
    html = st.sampled_from(["<div>\nhi *x*\n</div>", "<!-- a\n\nb -->", "<pre>\na\n\nb\n</pre>", "<p>x</p>"] + (["<?php\n\nx ?>", "  <div>\n  y\n  </div>", "<span>\nz\n</span>", "<script>\nlet a;\n\n</script>", "<div>\n\n*in*\n\n</div>"] if hard else []))
    leaf = [para, para, para, head, setext, fence, icode, hr, html]
    if gfm:
        cell = st.one_of(inline(hard, gfm, 1, False), st.just(""), st.just("a\\|b"), st.just("`c\\|d`")).map(lambda c: c.replace("a\\|b", "a\0b").replace("c\\|d", "c\0d").replace("|", "").replace("\0", "\\|").replace("\n", " "))
        def mk(a):
            al, rows = a
            n = len(al)
            rs = [r[:n] + [""] * (n - len(r[:n])) for r in rows]
            rs[0] = [c or "head" for c in rs[0]]
            return "\n".join(["| " + " | ".join(rs[0]) + " |", "|" + "|".join(al) + "|"] + ["| " + " | ".join(r) + " |" for r in rs[1:]] + ["", "end"])
        table = st.tuples(st.lists(st.sampled_from(["---", ":--", "--:", ":-:"]), min_size=1, max_size=3), st.lists(st.lists(cell, min_size=1, max_size=3), min_size=2, max_size=4).filter(lambda rs: any(rs[0]))).map(mk)
        leaf += [table]
        if gfm != "notask":
            leaf += [st.lists(st.tuples(st.sampled_from(" x"), one), min_size=1, max_size=3).map(lambda l: "\n".join("- [%s] %s" % a for a in l))]
    leaf = st.one_of(leaf)

    def lst(a):
        items, marker, loose, start = a
        loose = loose or any("|" in b or b.lstrip()[:1] == "<" for bs in items for b in bs[:-1])
        out = []
        for i, bs in enumerate(items):
            m = marker + " " if marker in "-+*" else "%d%s " % (start + i, marker)
            out.append(ind(("\n\n" if loose else "\n").join(bs) if bs else "", m, " " * len(m)).rstrip(" "))
        return ("\n\n" if loose else "\n").join(out)

    def rec(ch):
        many = st.lists(ch, min_size=1, max_size=3)
        return st.one_of(many.map(lambda bs: ind("\n\n".join(bs), "> ", "> ")),
                         st.tuples(st.lists(many, min_size=1, max_size=3), st.sampled_from("-+*.)"), st.booleans(), st.sampled_from([1, 2, 9, 10, 99])).map(lst),
                         st.tuples(st.lists(many, min_size=1, max_size=3), st.sampled_from("-+*.)"), st.just(True), st.sampled_from([1, 3])).map(lst))
    blk = st.recursive(leaf, rec, max_leaves=5)
    return st.lists(blk, min_size=1, max_size=5).map(lambda l: "\n\n".join(l))


def gen(dialect):
    hard = dialect in ("commonmark", "gfm")
    gfm = {"commonmark": False, "gfm": True, "unified": "notask", "mmd": "notask", "kramdown": "notask"}[dialect]
    return st.tuples(blocks(hard, gfm, dialect), st.booleans(), st.integers(0, 2)).map(lambda a: {
        "d": dialect, "t": ("" if hard else "Start\n\n") + a[0] + ("\n\n[ref]: /r \"t\"\n[ref2]: <r s>\n" if hard else "\n")
        + ("\n%s\n\n[^n]: note *one*\n\n    two\n\n[^m]: other\n" % ("see[^n] and[^m]" if a[2] == 2 else "again[^m] then[^n] and[^m]") if gfm and hard and a[2] else "")})


def noname(h):
    """the name of a footnote and the indentation of a raw block are not part of the meaning"""
    h = re.sub(r"(?m)^ {1,3}<div>", "<div>", h)
    return re.sub(r'(fn|fnref)-[mn12]\b', r"\1-", h)


def check(case, ctx):
    mode, fmt = MODE[case["d"]]
    t = case["t"]
    o = dict(generate_header_ids=0, unsafe=1, enable_footnotes=int(mode > 0))
    if mode > 1:
        o.update(enable_smart_typography=0, allow_mixed_list_markers=0)
    h1 = ctx.w.conv(t, mode=mode, **o)
    md = ctx.w.conv(t, mode=mode, output_format=fmt, **o)
    h2 = ctx.w.conv(md, mode=mode, **o)
    if norm(noname(h1)) != norm(noname(h2)):
        raise Violation("the Markdown output means something else:\n%s\n--- html of input\n%s\n--- html of output\n%s" % (md, h1, h2))
    if mode < 2:
        ext = "table,strikethrough,autolink,tasklist" if mode else ""
        r = [ctx.w.call("cmark", (1 << 17) | (1 << 13 if mode else 0), ext, x.encode())[0].decode() for x in (t, md)]
        if norm(noname(r[0])) != norm(noname(r[1])):
            raise Violation("the Markdown output means something else to the reference library:\n%s\n--- html of input\n%s\n--- html of output\n%s" % (md, r[0], r[1]))
    md2 = ctx.w.conv(md, mode=mode, output_format=fmt, **o)
    if md2 != md:
        raise Violation("converting the Markdown output again changes it:\n%s\n---\n%s" % (md, md2))
    tags = [x for x in ("<ul", "<ol", "<blockquote", "<pre", "<table", "<h1", "<h2", "<hr", "<p", "<li") if x in h1]
    inl = [x for x in ("<em", "<strong", "<code", "<a ", "<img", "<br", "<del") if x in h1]
    for x in tags + inl: ctx.label(x[1:].strip())
    ctx.label(case["d"])
    ctx.nt(len(tags) > 1 and bool(inl))


PROPS = [Prop("commonmark", lambda: gen("commonmark"), check, 1300, 40000), Prop("gfm", lambda: gen("gfm"), check, 1300, 40000),
         Prop("other-dialects", lambda: st.one_of(gen("unified"), gen("mmd"), gen("kramdown")), check, 1300, 40000)]
