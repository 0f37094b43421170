"""C24 - no text is lost, duplicated or reordered, whatever the constructs and however long."""
import html as H
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens

BINS = ["worker"]
RULE = ("Documents of all block kinds (paragraphs, headings, lists, nested lists, quotes, callouts, tables, definition lists, divs, footnotes, code, raw HTML, captions) and inline kinds (emphasis, code, links, images, highlights, insertions, super- and subscript, critic marks, wiki links, inline notes, abbreviations, math, "
        "citations, index entries), composed at random with numbered words, some elements several thousand bytes long; the visible text of the HTML must contain every word exactly once and in document order (notes after the text). Non-trivial: at least two kinds of blocks or an element over 1000 bytes.")
ASSUMPTIONS = ["words are letters and digits only", "link addresses and attributes stay below the documented limits"]

INL = ["w", "w", "w", "em", "strong", "code", "link", "hl", "ins", "sup", "sub", "del", "add", "cdel", "subst", "note", "wiki", "esc", "span", "html", "quote", "reflink", "auto", "emoji", "long", "img"]
inl = st.lists(st.tuples(st.sampled_from(INL), st.integers(1, 3)), min_size=1, max_size=5)
BL = ["para", "para", "para", "head", "setext", "ul", "ol", "nest", "loose", "quote", "callout", "table", "relaxed", "headless", "dl", "div", "code", "icode", "html", "mdhtml", "hr", "foot", "task", "alpha", "caption", "biglist", "comment"]
SIZES = [1, 1, 1, 1, 1, 1, 1, 2, 40, 130, 300, 700, 1500]
blk = st.tuples(st.sampled_from(BL), st.lists(inl, min_size=3, max_size=3), st.sampled_from(SIZES))
case_s = st.fixed_dictionaries({"b": st.lists(blk, min_size=1, max_size=6), "mode": st.sampled_from([2, 3, 4, 4, 4]),
                                "opt": st.fixed_dictionaries({}, optional={k: st.booleans() for k in ("enable_wiki_links", "enable_indices", "enable_citations", "standalone", "pretty", "hardbreaks", "enable_widont", "relaxed_tables", "generate_header_ids", "enable_smart_typography", "enable_aria", "enable_autolink", "obfuscate_emails", "enable_file_includes", "header_anchors")})})


class Doc:
    def __init__(self, mode):
        self.n = 0
        self.mode = mode
        self.main, self.notes, self.cur = [], [], None
        self.cur = self.main
        self.defs = []
        self.nid = 0

    def w(self):
        self.n += 1
        x = "zq%dx" % self.n
        self.cur.append(x)
        return x

    def ws(self, k):
        return " ".join(self.w() for _ in range(k))

    def inline(self, l, size=1, cell=False, nonote=False):
        out = []
        m = self.mode
        first = True
        for kind, k in l:
            n = k * size if first else k
            first = False
            if kind == "long": n = k * 12
            if kind in ("wiki", "hl", "ins", "subst", "add", "cdel", "span", "note", "html", "sup", "sub", "img") and n > 200: n = 200
            if kind == "em": out.append("*%s*" % self.ws(n))
            elif kind == "strong": out.append("**%s**" % self.ws(n))
            elif kind == "code": out.append("`%s`" % self.ws(n))
            elif kind == "link": out.append("[%s](http://e.com/p)" % self.ws(n))
            elif kind == "reflink": out.append("[%s][ref]" % self.ws(n))
            elif kind == "hl": out.append("==%s==" % self.ws(n) if m != 3 else self.ws(n))
            elif kind == "ins": out.append("++%s++" % self.ws(n) if m == 4 else self.ws(n))
            elif kind == "sup": out.append(self.w() + "^%s^" % self.w())
            elif kind == "sub": out.append(self.w() + "~%s~" % self.w())
            elif kind == "del": out.append("~~%s~~" % self.ws(n) if m != 2 else self.ws(n))
            elif kind == "add": out.append("{++%s++}" % self.ws(n))
            elif kind == "cdel": out.append("{==%s==}" % self.ws(n))
            elif kind == "subst": out.append("{--zz--}" + self.ws(n))
            elif kind == "note" and not nonote:
                old = self.cur
                self.cur = self.notes
                if k == 2 or (k == 1 and m == 2):
                    self.nid += 1
                    out.append("%s[^l%d]" % ("", self.nid))
                    self.defs.append("[^l%d]: %s" % (self.nid, self.ws(n)))
                else: out.append("^[%s]" % self.ws(n) if m != 2 else "")
                self.cur = old
            elif kind == "wiki": out.append("[[%s]]" % self.w() if m == 4 and self.wiki else self.w())
            elif kind == "esc": out.append("\\*%s\\_" % self.w())
            elif kind == "span": out.append("[%s]{.c}" % self.ws(n) if m == 4 else self.ws(n))
            elif kind == "html": out.append("<b>%s</b>" % self.ws(n))
            elif kind == "quote": out.append("\"%s\"" % self.ws(n))
            elif kind == "auto": out.append("<http://e.com/%s>" % self.w() if not nonote else self.w())
            elif kind == "emoji": out.append(":smile: " + self.w() if m == 4 else self.w())
            elif kind == "img": out.append("![alt](i.png) " + self.w())
            else: out.append(self.ws(n))
        s = " ".join(x for x in out if x)
        return s if s else self.w()

    wiki = False


def build(case):
    d = Doc(case["mode"])
    d.wiki = bool(case["opt"].get("enable_wiki_links"))
    m = case["mode"]
    out = ["Begin.\n"]
    prev = None
    for kind, ls, size in case["b"]:
        a, b, c = ls
        I = d.inline
        if kind == "head": s = "## %s" % I(a, min(size, 300), nonote=True)
        elif kind == "setext": s = "%s %s\n---------" % (d.w(), I(a, min(size, 300), nonote=True))
        elif kind == "ul": s = "- %s\n- %s\n- %s\n\n%s." % (I(a, size), I(b), I(c), d.w())
        elif kind == "biglist": s = "".join("- %s\n" % d.ws(3) for _ in range(min(size, 400))) + "\n%s." % d.w()
        elif kind == "ol": s = "1. %s\n2. %s\n3. %s\n\n%s." % (I(a, size), I(b), I(c), d.w())
        elif kind == "alpha": s = "a. %s\nb. %s\n\n%s." % (I(a, size), I(b), d.w())
        elif kind == "task": s = "- [ ] %s\n- [x] %s\n\n%s." % (I(a, size), I(b), d.w())
        elif kind == "nest": s = "- %s\n    - %s\n    - %s\n\n%s." % (I(a, size), I(b, size), I(c), d.w())
        elif kind == "loose": s = "1. %s\n\n    %s\n\n2. %s\n\n%s." % (I(a, size), I(b, size), I(c), d.w())
        elif kind == "quote": s = "> %s\n> %s\n>\n> %s\n\n%s." % (I(a, size), I(b), I(c), d.w())
        elif kind == "callout": s = "> [!NOTE] %s\n> %s\n\n%s." % (d.ws(2) if m == 4 else d.w(), I(b, size), d.w())
        elif kind == "table": s = "| %s | %s |\n|---|---|\n| %s | %s |\n\n%s." % (d.w(), I(a, size), I(b, size), I(c), d.w())
        elif kind == "relaxed": s = "%s | %s\n%s | %s\n\n%s." % (d.w(), d.w(), d.ws(min(size, 300)), d.w(), d.w()) if m != 2 else d.w()
        elif kind == "headless": s = "|---|---|\n| %s | %s |\n| %s | %s |\n\n%s." % (I(a, size), I(b), I(c), d.w(), d.w())
        elif kind == "dl": s = "%s\n: %s\n: %s\n\n%s." % (d.ws(min(size, 300)), I(a, size, nonote=True), I(b, nonote=True), d.w())
        elif kind == "div": s = "::: note\n%s\n\n%s\n:::\n\n%s." % (I(a, size, nonote=True), I(b, nonote=True), d.w()) if m == 4 else I(a)
        elif kind == "code": s = "```\n%s\n%s\n```\n\n%s." % (d.ws(size), d.w(), d.w())
        elif kind == "icode": s = "%s.\n\n    %s\n    %s\n\n%s." % (d.w(), d.ws(size), d.w(), d.w())
        elif kind == "html": s = "<div>\n%s\n</div>\n\n%s." % (d.ws(size), d.w())
        elif kind == "mdhtml": s = "<div markdown=\"1\">\n%s\n\n%s\n</div>\n\n%s." % (I(a, size, nonote=True), I(b, nonote=True), d.w())
        elif kind == "hr": s = "%s.\n\n***\n\n%s." % (d.w(), d.w())
        elif kind == "foot":
            d.nid += 1
            k = d.nid
            s = "%s[^m%d] %s." % (d.w(), k, d.w())
            old, d.cur = d.cur, d.notes
            d.defs.append("[^m%d]: %s\n\n    %s\n\n    - %s" % (k, d.ws(size), d.ws(3), d.w()))
            d.cur = old
        elif kind == "caption": row = (I(a, 1, nonote=True), d.w()); s = "[%s]\n| h | i |\n|---|---|\n| %s | %s |\n\n%s." % ((d.ws(min(size, 60)),) + row + (d.w(),))
        elif kind == "comment": s = "%s.\n\n<!-- c -->\n\n%s." % (d.w(), d.w())
        else: s = "%s %s" % (d.w(), I(a, size))
        out.append(s + "\n")
    for x in d.defs: out.append(x + "\n")
    out.append("[ref]: http://r.com \"T\"\n")
    out.append("Done.\n")
    return "\n".join(out), d


def t_doc(case, ctx):
    src, d = build(case)
    opt = dict(case["opt"])
    opt["unsafe"] = 1
    h = ctx.w.conv(src, case["mode"], **opt)
    if h is None: raise Violation("no output for %r" % src)
    body = re.sub(r"(?s)<(head|style|script)\b.*?</\1>", "", h)
    got = re.findall(r"zq\d+x", re.sub(r"(?s)<!--.*?-->|<[^>]*>", "", H.unescape(re.sub(r"&lt;", "‹", body))))
    exp = d.main + d.notes
    kinds = {b[0] for b in case["b"]}
    if len(kinds) > 1 or any(b[2] > 100 for b in case["b"]): ctx.nt(src)
    for k in kinds: ctx.label(k)
    if got != exp:
        i = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
        raise Violation("word %d differs (have %r of %d, expected %r of %d)\nsource (%d bytes, mode %d, %r): %r\n---\n%s" % (i, got[i:i + 6], len(got), exp[i:i + 6], len(exp), len(src), case["mode"], opt, src[:3000], h[:3000]))


# recorded findings: the exact inputs
PINS = [["C24-note-in-definition", "Begin.\n\nterm\n: def[^n]\n\nEnd.\n\n[^n]: zq1x\n", 4], ["C24-note-in-html", "Begin.\n\n<div markdown=\"1\">\ntext[^n]\n</div>\n\nEnd.\n\n[^n]: zq1x\n", 4]]


def t_pin(case, ctx):
    fid, src, mode = case
    h = ctx.w.conv(src, mode)
    ctx.nt(src)
    if h is None or "End." not in h: raise Violation("text lost: %r\n%r" % (src, h))
    if "zq1x" not in h: ctx.known_finding(fid)


PROPS = [Prop("words", lambda: case_s, t_doc, 14000, 150000), Prop("findings", lambda: st.sampled_from(PINS), t_pin, 64, 64)]
