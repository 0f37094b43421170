"""C32 - terminal and man output hold the text of the document."""
import html
import os
import re
from hypothesis import strategies as st
from lib import cli
from lib.runner import Prop
from lib.worker import Violation

BINS = ["worker", "apex"]
RULE = ("A tree of headings, paragraphs, lists (nested, with start numbers), quotes, code, rules and (terminal) tables with numbered words in any inline markup is written as Markdown, with words that look like roff requests, roff and ANSI escapes, "
        "quotes and other scripts. The generator knows the sequence of words, list numbers and addresses. The terminal output (16 and 256 colours) without its SGR sequences, the roff source read by a small roff reader that knows the requests of the man macros "
        "Apex emits, and the man page HTML must hold exactly that sequence. The wrapped output of the command line without its newlines is that without wrapping, and no line is longer than N. Non-trivial: three kinds of blocks.")
ASSUMPTIONS = ["the syntaxes that Apex turns into HTML first (definitions, divs, callouts, raw HTML) and tables in man pages are outside the statement", "smart typography, autolinks and emoji are off or not generated", "visible columns are characters"]

PRE = [".", "'", "\\\\", "\\\\fB", "\\\\\"", "-", "--", "é", "日本", "", "", "", "", "", ".SH", "'br", "%", "\"", "@", "\\\\(bu", "…", "—", "x.", "\\&"]
SUF = ["", "", "", ".", "\"", "'", "\\\\", "-x", "ß", ",", "語", "\\\\n", "!"]
KINDS = ["w", "w", "w", "w", "em", "st", "code", "link", "ref", "img", "soft", "hard", "nest", "del"]


@st.composite
def inl(draw, soft=True):
    return [[draw(st.sampled_from(KINDS if soft else [k for k in KINDS if k not in ("soft", "hard")])), draw(st.integers(0, len(PRE) - 1)), draw(st.integers(0, len(SUF) - 1))] for _ in range(draw(st.integers(1, 6)))]


def blocks(depth):
    @st.composite
    def f(draw):
        out = []
        for _ in range(draw(st.integers(1, 5 if depth == 0 else 2))):
            ks = ["p", "p", "code", "long"] + (["h", "rule", "table"] if depth == 0 else []) + (["ul", "ol", "quote"] if depth < 3 else [])
            k = draw(st.sampled_from(ks))
            if k == "p": out.append([k, draw(inl())])
            elif k == "long": out.append([k, draw(st.integers(20, 600))])
            elif k == "h": out.append([k, draw(st.integers(1, 6)), draw(inl(False))])
            elif k == "rule": out.append([k])
            elif k == "code": out.append([k, draw(st.sampled_from(["", "py", "c++"])), draw(st.lists(st.tuples(st.integers(0, len(PRE) - 1), st.integers(0, 3)), min_size=1, max_size=4))])
            elif k == "table":
                n = draw(st.integers(1, 4))
                out.append([k, n, [[draw(inl(False)) for _ in range(n)] for _ in range(draw(st.integers(2, 4)))]])
            elif k == "quote": out.append([k, draw(blocks(depth + 1))])
            else: out.append([k, draw(st.integers(0, 30)), [[["p", draw(inl())]] + (draw(blocks(depth + 1)) if draw(st.booleans()) else []) for _ in range(draw(st.integers(1, 4)))]])
        return out
    return f()


@st.composite
def doc(draw):
    return {"b": draw(blocks(0)), "m": draw(st.sampled_from([0, 1, 2, 4])), "w": draw(st.integers(1, 60)), "cli": draw(st.integers(0, 14)) == 0}


class Write:
    """the Markdown of a tree, and its sequence of tokens"""
    def __init__(self, mode, term):
        self.n, self.mode, self.term = 0, mode, term
        self.exp, self.refs, self.kinds = [], [], set()

    def word(self, i, j, code=False):
        self.n += 1
        p, s = PRE[i], SUF[j]
        if code:
            p = p.replace("\\\\", "\\").replace("\\&", "&")
            return p + "w%d" % self.n, p + "w%d" % self.n
        md = p + "w%d" % self.n + s
        return md, re.sub(r"\\([\\&])", r"\1", md)

    def inline(self, xs, first=True):
        md, cur = "", []
        xs = list(xs)
        while xs and xs[-1][0] in ("soft", "hard"): xs.pop()
        for n, (k, i, j) in enumerate(xs):
            if k in ("soft", "hard"):
                if not md or md.endswith("\n"): continue
                md = md.rstrip(" ") + ("\\\n" if k == "hard" else "\n")
                continue
            # a block mark at the start of a line would be one
            if (not md or md.endswith("\n")) and PRE[i] in ("-", "--", "%", "x."): i = PRE.index("é")
            m, e = self.word(i, j)
            if k == "em": md += "*a%s*" % m; cur += ["a" + e]
            elif k == "st": md += "**a%sb**" % m; cur += ["a" + e + "b"]
            elif k == "nest": md += "**a *b%sc* d**" % m; cur += ["a", "b" + e + "c", "d"]
            elif k == "del":
                if self.mode in (1, 4): md += "~~a%sb~~" % m; cur += ["a" + e + "b"]
                else: md += m; cur += [e]
            elif k == "code":
                m, e = self.word(i, 0, True)
                md += "`%s`" % m; cur += [e]
            elif k in ("link", "ref"):
                u = "http://x.y/p%d?a=b" % self.n
                if k == "link": md += "[a%sb](%s)" % (m, u)
                else:
                    md += "[a%sb][r%d]" % (m, self.n); self.refs.append("[r%d]: %s" % (self.n, u))
                cur += ["a" + e + "b", ("U", u)]
            elif k == "img": md += "![a%sb](i%d.png)" % (m, self.n); cur += [("I", "a" + e + "b", "i%d.png" % self.n)]
            else: md += m; cur += [e]
            md += " "
        if not cur:
            m, e = self.word(7, 0)
            md, cur = m, [e]
        self.exp += cur
        return md.strip()

    def block(self, b, ind):
        k = b[0]
        self.kinds.add(k)
        pad = "\n" + ind
        if k == "p": return self.inline(b[1]).replace("\n", pad)
        if k == "long":
            ws = ["lw%d" % (self.n + i) for i in range(b[1])]
            self.n += b[1]
            self.exp += ws
            return " ".join(ws)
        if k == "h": return "#" * b[1] + " " + self.inline(b[2])
        if k == "rule": return "---"
        if k == "code":
            ls = []
            if self.term: self.exp.append("```" + b[1])
            for i, sp in b[2]:
                m, e = self.word(i, 0, True)
                ls.append(" " * sp + m); self.exp.append(e)
            if self.term: self.exp.append("```")
            return pad.join(["```" + b[1]] + ls + ["```"])
        if k == "table":
            if not self.term or self.mode in (0,): return self.block(["rule"], ind)
            rows = ["| " + " | ".join(self.inline(c).replace("|", "") for c in r) + " |" for r in b[2]]
            self.exp += ["after", "it"]                                      # a following line in brackets would be its caption
            return pad.join(rows[:1] + ["|" + "---|" * b[1]] + rows[1:]) + "\n\nafter it"
        if k == "quote": return pad.join(("> " + x) if x else ">" for x in self.blocks(b[1], "").split("\n"))
        out = []
        for i, item in enumerate(b[2]):
            mark = "- " if k == "ul" else "%d. " % (b[1] + i + 1)
            self.exp.append(("M", k, b[1] + i + 1))
            body = self.blocks(item, "")
            out.append(mark + body.replace("\n", "\n" + " " * len(mark)))
        return "\n\n".join(out).replace("\n", pad)

    def blocks(self, bs, ind):
        out = []
        last = None
        for b in bs:
            if last in ("ul", "ol") and b[0] in ("ul", "ol"): continue      # they would join
            out.append(self.block(b, ind)); last = b[0]
        return ("\n\n" + ind).join(out)


def toks(exp, kind):
    out = []
    for x in exp:
        if isinstance(x, str): out.append(x)
        elif x[0] == "U": out += ["(%s)" % x[1]] if kind != "mh" else []
        elif x[0] == "I": out.append("![%s](%s)" % x[1:] if kind == "term" else x[1])
        elif x[1] == "ol" and kind != "mh": out.append("%d." % x[2])
    return out


REQ = {".TH", ".SH", ".SS", ".PP", ".IP", ".br", ".nf", ".fi", ".RS", ".RE", ".TP"}


def args(s):
    """arguments of a roff request, quotes as in roff"""
    out, i = [], 0
    while i < len(s):
        if s[i] == " ": i += 1; continue
        cur = ""
        if s[i] == '"':
            i += 1
            while i < len(s):
                if s[i] == '"':
                    if s[i + 1:i + 2] == '"': cur += '"'; i += 2; continue
                    i += 1
                    break
                cur += s[i]; i += 1
        else:
            while i < len(s) and s[i] != " ": cur += s[i]; i += 1
        out.append(cur)
    return out


def unroff(s):
    def esc(m):
        e = m.group(0)
        if re.match(r"\\f(\[\w*\]|R|B|I|P)$", e) or e == "\\&": return ""
        if e in ("\\(bu", "\\[bu]"): return "\x01"
        if e in ("\\[em]", "\\(em"): return "—"
        if e == "\\e" or e in ("\\(rs", "\\[rs]"): return "\\"
        if e == "\\-": return "-"
        if e in ("\\(dq", "\\[dq]"): return '"'
        if e in ("\\(aq", "\\[aq]"): return "'"
        raise Violation("escape %r in roff text %r" % (e, s))
    return re.sub(r"\\(?:f\[\w*\]|f\w|\[\w+\]|\(\w\w|.|$)", esc, s)


def roff(t):
    out = []
    for l in t.split("\n"):
        if l[:1] in (".", "'"):
            r, _, a = l.partition(" ")
            if r not in REQ: raise Violation("text became the roff request %r" % l)
            if r in (".SH", ".SS"): out += unroff(" ".join(args(a))).split()
            elif r == ".IP": out += [x for x in unroff(args(a)[0]).split() if x != "\x01"]
            elif r == ".TH":
                if len(args(a)) != 4: raise Violation("title line with %d arguments: %r" % (len(args(a)), l))
        else: out += unroff(l).split()
    return [x for x in out if x != "*"]


def sgr(t):
    """text without SGR sequences; they all end"""
    on = False
    for m in re.finditer(r"\x1b\[([0-9;]*)m|\x1b", t):
        if m.group(1) is None: raise Violation("broken escape sequence at %r" % t[m.start():m.start() + 20])
        on = m.group(1) not in ("", "0")
    if on: raise Violation("the output ends within a style: ...%r" % t[-80:])
    return re.sub(r"\x1b\[[0-9;]*m", "", t)


def compare(what, got, exp, md, out):
    if got == exp: return
    i = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
    raise Violation("%s output differs at word %d: got ...%r, expected ...%r\n%s\n--- output:\n%s" % (what, i, got[max(0, i - 2):i + 5], exp[max(0, i - 2):i + 5], md[:2500], out[:3000]))


def check(case, ctx):
    o = dict(mode=case["m"], enable_smart_typography=0, enable_autolink=0, enable_plugins=0, enable_emoji_autocorrect=0, enable_citations=0, enable_hashtags=0, enable_math=0, enable_metadata_variables=0, enable_sup_sub=0)
    for kind, fs in (("term", (8, 9)), ("man", (10,)), ("mh", (11,))):
        w = Write(case["m"], kind == "term")
        md = "Start here\n\n" + w.blocks(case["b"], "") + "\n\nEnd here\n"
        if w.refs: md += "\n" + "\n".join(w.refs) + "\n"
        exp = ["Start", "here"] + toks(w.exp, kind) + ["End", "here"]
        for f in fs:
            t = ctx.w.conv(md, output_format=f, **o)
            if kind == "term":
                got = [x for x in re.sub(r"[─│┌┬┐├┼┤└┴┘]", " ", sgr(t)).split() if x not in ("*", ">") and not re.match(r"-{9,}$", x)]
            elif kind == "man": got = roff(t)
            else: got = html.unescape(re.sub(r"<[^>]*>", lambda m: "" if re.match(r"</?(em|strong|code|a|del)\b", m.group(0)) else " ", t)).split()
            if kind == "man":
                exp = [x.replace("–", "--") for x in exp]
            compare({8: "terminal", 9: "terminal256", 10: "man", 11: "man-html"}[f], got, [x for x in exp if x not in ("*", ">")], md, t)
            if kind == "term" and f == 8:
                term, tmd, kinds = t, md, w.kinds
    if case["cli"]:
        p = os.path.join(ctx.scratch, "c32.md")
        with open(p, "w") as f: f.write(tmd)
        base = ["--mode", ["commonmark", "gfm", "mmd", "kramdown", "unified"][case["m"]], "--no-plugins", "-t", "terminal", p]
        a, b = cli.run(ctx, base)[1], cli.run(ctx, base + ["--width", str(case["w"])])[1]
        if a.replace("\n", "") != b.replace("\n", ""):
            raise Violation("wrapping at %d changes the text\n%s\n%r\n%r" % (case["w"], tmd[:1500], a[:1500], b[:1500]))
        for la in sgr(b).split("\n"):
            if len(la) > case["w"]: raise Violation("--width %d gives a line of %d: %r" % (case["w"], len(la), la))
        # a line is broken only where it is full
        lines, i = sgr(b).split("\n"), 0
        for l in sgr(a).split("\n"):
            need = [l[x:x + case["w"]] for x in range(0, len(l), case["w"])] or [""]
            if lines[i:i + len(need)] != need: raise Violation("--width %d breaks %r as %r" % (case["w"], l[:300], lines[i:i + len(need)][:6]))
            i += len(need)
        ctx.label("command line width")
    ctx.nt(len(kinds) >= 3)
    ctx.label(*("has " + k for k in kinds))


PROPS = [Prop("text", doc, check, 6000, 90000)]
