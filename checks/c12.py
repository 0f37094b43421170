"""C12 - header ids, manual ids and the table of contents."""
import re, unicodedata
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, htm

BINS = ["worker"]
RULE = ("Heading texts of ASCII, accented letters, dashes, emoji and punctuation are turned into ids in the three formats and compared with a reference written from the documentation; "
        "documents of ATX and setext headings (plain, emphasised, linked, manual id, IAL, duplicates, long, nested in quotes, raw HTML headings between) are converted and every heading's level, id and text, "
        "and the nested table of contents, compared with the model. Non-trivial: at least two headings or a text with a non-ASCII or punctuation character.")
ASSUMPTIONS = ["heading words carry no syntax of their own; emoji are drawn from a list with documented names"]
GFM, MMD, KRAM = 0, 1, 2
EMO = {"\U0001F604": "smile", "\U0001F680": "rocket", "\U0001F44D": "thumbsup", "\U0001F44E": "thumbsdown"}
BASE = {}
for ch in "ÀÁÂÃÄÅàáâãäåÇçÈÉÊËèéêëÌÍÎÏìíîïÑñÒÓÔÕÖòóôõöÙÚÛÜùúûüÝýÿ":
    BASE[ch] = unicodedata.normalize("NFD", ch)[0].lower()
BASE.update({"Ø": "o", "ø": "o", "ß": "s"})


def model(t, f):
    out = ""
    if f == GFM:
        for ch in t:
            if ch.isascii() and ch.isalnum(): out += ch.lower()
            elif ch in " -": out += "-" if out and not out.endswith("-") else ""
            elif ch in EMO: out += EMO[ch]
            elif ch in BASE: out += BASE[ch]
        out = out.strip("-")
    elif f == MMD:
        for ch in t:
            if ch.isascii(): out += ch.lower() if ch.isalnum() or ch == "-" else ""
            elif ch not in "\u2018\u2019": out += ch
    else:
        punct = False
        for i, ch in enumerate(t):
            if not ch.isascii(): continue
            if ch.isalnum() or ch == "-":
                out += ch.lower(); punct = False
            elif ch == " ":
                if not punct: out += "-"
                punct = False
            elif t[i + 1:].strip(" \t\r\n") == "":
                punct = False
            else:
                out += "-"; punct = True
        out = out.lstrip("-")
    return out or "header"


def t_id(case, ctx):
    t = "".join(case["t"])
    for f in (GFM, MMD, KRAM):
        r = ctx.w.call("apex_generate_header_id", t, f)[0]
        if r == b"!missing": return
        if r is None or r.decode("utf-8", "surrogateescape") != model(t, f):
            raise Violation("id of %r in format %d: %r, expected %r" % (t, f, r, model(t, f)))
    for ch in t:
        if not ch.isascii(): ctx.label("accent" if ch in BASE else "emoji" if ch in EMO else "other non-ASCII")
    ctx.nt(any(not c.isalnum() for c in t))


chars = st.sampled_from(list(BASE) + list(EMO) + list("\u2014\u2013\u2018\u2019\u201c\u201d\u4e2d\u6587\u0436\u05d0\u00d7\u00f7\u00e6\u0153\u2026\u20ac"))
tok = st.one_of(st.sampled_from(list(" -  --,.!?:;()[]{}+&/\\'\"#*_=~^|<>@%$`") + ["--", "---", " - ", ", ", "! ", "C++", "\t"]), chars, gens.word, gens.word.map(str.title),
                st.text("abzAZ019", min_size=1, max_size=4))


# ---- manual ids (text function) -------------------------------------
def t_manual(case, ctx):
    base, i, sp, style, tail = case["b"], case["i"], case["s"], case["k"], case["e"]
    t = base + sp + {"[": "[%s]", "{": "{#%s}"}[style] % i + tail
    r = ctx.w.call("manual_id", t)
    if r[0] == b"!missing": return
    if r[0] != b"1" or r[1].decode() != base or r[2].decode() != i:
        raise Violation("manual id of %r: %r, expected text %r and id %r" % (t, r, base, i))
    t2 = t + "x"
    r = ctx.w.call("manual_id", t2)
    if r[0] != b"0" or r[1].decode() != t2:
        raise Violation("%r has no trailing id but gives %r" % (t2, r))
    ctx.label(style); ctx.nt()


# ---- documents ------------------------------------------------------
def inl(kind, w):
    if kind == "e": return "*%s*" % w, w
    if kind == "s": return "**%s**" % w, w
    if kind == "c" and "&" not in w: return "`%s`" % w, w
    if kind == "l": return "[%s](http://e.com/x)" % w, w
    return w, w


piece = st.builds(inl, st.sampled_from("tttttescl"), gens.uword | gens.uword.map(str.title) | st.sampled_from(["A/B", "déjà", "Ünder", "one,", "yes!", "(big)", "R&amp;D", "3-4", "Ñu", "\u4e2d\u6587"]))


@st.composite
def heading(draw):
    ps = draw(st.lists(piece, min_size=1, max_size=4))
    ps = ps + [("end", "end")] if ps[-1][0].endswith(")") else ps
    return dict(level=draw(st.integers(1, 6)), src=" ".join(p[0] for p in ps), text=" ".join(p[1].replace("&amp;", "&") for p in ps),
                kind=draw(st.sampled_from(["atx", "atx", "atx", "closed", "setext", "quote"])),
                manual=draw(st.sampled_from([None] * 5 + ["[", "{", "ial", "attrs"])), mid=draw(st.sampled_from(["intro", "x1", "My-Id", "sec_2", "end"])),
                long=draw(st.sampled_from([0] * 12 + [30, 120])), notoc=draw(st.integers(0, 9)) == 0)


@st.composite
def hdoc(draw):
    hs = draw(st.lists(heading(), min_size=1, max_size=7))
    k = draw(st.integers(0, 12))
    if k == 0: hs = (hs * 30)[:60]
    items = []
    for h in hs:
        h = dict(h)
        if h["kind"] == "setext": h["level"] = 1 + h["level"] % 2
        if h["kind"] == "quote" and h["manual"] in ("ial", "attrs"): h["manual"] = None
        items.append(("h", h))
        x = draw(st.integers(0, 8))
        if x == 0: items.append(("raw", draw(st.sampled_from(["<h2>Raw one</h2>", "<h3 id=\"rawid\">Raw two</h3>", "<div>\n<h4 class=\"k\">Raw three</h4>\n</div>"]))))
        elif x < 4: items.append(("p", draw(gens.uword)))
    return items


def source(items, mode, ial):
    out, exp, raws = [], [], 0
    for k, h in items:
        if k == "raw":
            out.append(h); t = htm.tokens(h)
            s = [x for x in t if x[0] == "s" and re.match(r"h\d", x[1])][0]
            exp.append((int(s[1][1]), s[2].get("id"), htm.squash(htm.text(h)), "raw", False))
            continue
        if k == "p":
            out.append("so " + h + " on"); continue
        src, text = h["src"], h["text"]
        if h["long"]:
            src += " word" * h["long"]; text += " word" * h["long"]
        man, notoc, suffix = None, False, ""
        m = h["manual"]
        if m in ("ial", "attrs") and not ial: m = None
        if m == "[" : suffix = " [%s]" % h["mid"]
        elif m == "{": suffix = " {#%s}" % h["mid"]
        elif m == "ial": suffix = " {: #%s%s}" % (h["mid"], " .no_toc" if h["notoc"] else "")
        elif m == "attrs": suffix = " {#%s .klass%s}" % (h["mid"], " .no_toc" if h["notoc"] else "")
        # the id syntaxes apply to text directly before them: end such headings with a plain word
        if m:
            src = re.sub(r"[*`]|\]\([^)]*\)|\[", "", src)
            man = h["mid"]
            notoc = m in ("ial", "attrs") and h["notoc"]
        if h["kind"] == "setext": out.append(src + suffix + "\n" + ("=" if h["level"] == 1 else "-") * 5)
        elif h["kind"] == "quote": out.append("> " + "#" * h["level"] + " " + src + suffix)
        elif h["kind"] == "closed" and not m: out.append("#" * h["level"] + " " + src + " " + "#" * h["level"])
        else: out.append("#" * h["level"] + " " + src + suffix)
        exp.append((h["level"], man, text, "gen" if man is None else "man", notoc))
    return "so begin\n\n" + "\n\n".join(out) + "\n", exp


def assign(exp, f):
    """ids in document order: manual ids stay, generated ids that are taken get -1, -2, ..."""
    taken = {e[1] for e in exp if e[3] == "man"}
    seen, out = {}, []
    for lv, i, text, kind, notoc in exp:
        if kind == "gen":
            b = model(text, f)
            n = seen.get(b, 0); seen[b] = n + 1
            while (b if n == 0 else "%s-%d" % (b, n)) in taken: n += 1
            i = b if n == 0 else "%s-%d" % (b, n)
            taken.add(i)
        out.append((lv, i, text, kind, notoc))
    return out


def headings(h):
    out, cur = [], None
    for t in htm.tokens(h):
        if t[0] == "s" and re.fullmatch(r"h[1-6]", t[1]): cur = [int(t[1][1]), t[2].get("id"), "", None]
        elif t[0] == "e" and cur and t[1] == "h%d" % cur[0]:
            out.append((cur[0], cur[1], htm.squash(cur[2]), cur[3])); cur = None
        elif t[0] == "s" and cur and t[1] == "a" and t[2].get("class") == "anchor": cur[3] = (t[2].get("id"), t[2].get("href"))
        elif t[0] == "t" and cur: cur[2] += t[1]
    return out


FMT = {1: GFM, 2: MMD, 3: KRAM, 4: GFM}


def t_doc(case, ctx):
    mode = case["m"]
    f = case["f"] if case["f"] is not None else FMT[mode]
    src, exp = source(case["d"], mode, mode in (3, 4))
    o = dict(enable_smart_typography=0)
    if case["f"] is not None: o["id_format"] = f
    got = headings(ctx.w.conv(src, mode=mode, **o))
    want = [(lv, i, t) for lv, i, t, k, n in assign(exp, f)]
    if [g[:3] for g in got] != want:
        raise Violation("headings of %r (mode %d, id format %d):\n%r\nexpected\n%r" % (src, mode, f, got, want))
    got = headings(ctx.w.conv(src, mode=mode, header_anchors=1, **o))
    want = [(lv, t, None if k == "raw" else (i, "#" + i)) for lv, i, t, k, n in assign(exp, f)]
    if [(g[0], g[2], g[3]) for g in got] != want:
        raise Violation("anchors of %r (mode %d):\n%r\nexpected\n%r" % (src, mode, got, want))
    got = headings(ctx.w.conv(re.sub(r" (\[\w[\w-]*\]|\{[#:].*\})(?=\n)", "", src), mode=mode, generate_header_ids=0, **o))
    if any(g[1] or g[3] for g in got if g[1] != "rawid"):
        raise Violation("ids although ids are off: %r" % got)
    ctx.label("mode %d" % mode, *["manual" for e in exp if e[3] == "man"][:1], *["raw" for e in exp if e[3] == "raw"][:1])
    ctx.nt(len(exp) > 1)


# ---- TOC -------------------------------------------------------------
MARK = [("<!--TOC-->", 1, 6), ("{{TOC}}", 1, 6), ("<!--TOC max2 min1-->", 1, 2), ("<!--TOC max3-->", 1, 3), ("<!--TOC min2-->", 2, 6), ("{{TOC:2-3}}", 2, 3), ("{{TOC:1-2}}", 1, 2), ("<!--TOC min2 max4-->", 2, 4), ("{{TOC:3-5}}", 3, 5)]


def tree(entries):
    """expected nesting: an entry goes below the nearest earlier entry of a smaller level"""
    root = []
    stack = [(0, root)]        # (level of the entries in this list, list)
    levels = []
    lists = [root]
    for lv, i, t in entries:
        if levels and lv > levels[-1]:
            sub = lists[-1][-1][2]
            lists.append(sub); levels.append(lv)
        else:
            while len(levels) > 1 and lv <= levels[-2]:
                levels.pop(); lists.pop()
            if levels: levels[-1] = lv
            else: levels.append(lv)
        lists[-1].append(("#" + i, t, []))
    return root


def read_toc(h):
    root, stack, cur = [], [], None
    for t in htm.tokens(h):
        if t[0] == "s" and t[1] == "ul":
            if not stack: stack.append(root)
            else:
                if not stack[-1]: return "a list directly inside a list"
                stack.append(stack[-1][-1][2])
        elif t[0] == "e" and t[1] == "ul": stack.pop()
        elif t[0] == "s" and t[1] == "a":
            cur = [t[2].get("href"), ""]
        elif t[0] == "e" and t[1] == "a":
            if not stack: return "an entry outside a list"
            stack[-1].append((cur[0], htm.squash(cur[1]), [])); cur = None
        elif t[0] == "t" and cur: cur[1] += t[1]
    return root


def t_toc(case, ctx):
    mode, (mark, lo, hi) = case["m"], MARK[case["k"]]
    src, exp = source(case["d"], mode, mode in (3, 4))
    words = "\n\nthe maximum is 5, min 4: 2-3 and `%s` too\n" % mark
    pre = "" if case["at"] < 2 else ["about `%s` x\n\n", "```\n%s\n```\n\n", "<pre class=\"c\"><code>%s</code></pre>\n\n", "a <code>%s</code> b `x`\n\n"][case["at"] - 2] % (mark if case["at"] < 4 else "{{TOC}}")
    parts = ["to begin\n\n", src] if case["at"] % 2 == 0 else ["to begin\n\n" + src + "\n\n", ""]
    doc = parts[0] + pre + mark + "\n\n" + parts[1] + words
    h = ctx.w.conv(doc, mode=mode, enable_smart_typography=0, enable_marked_extensions=1)
    m = re.findall(r'<nav class="toc">.*?</nav>', h, re.S)
    if not any(k != "raw" and not n for _, _, _, k, n in exp) and not m: return     # nothing to list: the marker stays
    if len(m) != 1: raise Violation("%d tables of contents for %r:\n%s" % (len(m), doc, h))
    b = htm.balanced(m[0])
    if b: raise Violation("TOC of %r is not well formed (%s):\n%s" % (doc, b, m[0]))
    want = tree([(lv, i, t) for lv, i, t, k, n in assign(exp, FMT[mode]) if k != "raw" and not n and lo <= lv <= hi])
    got = read_toc(m[0])
    if got != want: raise Violation("TOC of %r (mode %d):\n%r\nexpected\n%r" % (doc, mode, got, want))
    rest = h.replace(m[0], "")
    if [x[:3] for x in headings(rest)] != [(lv, i, t) for lv, i, t, k, n in assign(exp, FMT[mode])]:
        raise Violation("the TOC disturbs the headings of %r:\n%s" % (doc, h))
    word = "<!--t o c-->" if mark[0] == "<" else "tocplaceholder"
    base = ctx.w.conv(doc[::-1].replace(mark[::-1], "\0", 1).replace(mark[::-1], word[::-1], 1).replace("\0", mark[::-1])[::-1], mode=mode, enable_smart_typography=0, enable_marked_extensions=1)
    if "".join(base.replace(word, m[0], 1).split()) != "".join(h.split()): raise Violation("the TOC changes the document around it: %r gives\n%s\nwithout it\n%s" % (doc, h, base))
    if mark.replace("<", "&lt;").replace(">", "&gt;") not in rest: raise Violation("the marker in code is replaced: %s" % h)
    ctx.label("mode %d" % mode, mark); ctx.nt(len(want) > 0)


HP = st.sampled_from(["*em*", "alpha", "beta", "[bar]", "{#baz}", "**st**", "`co`", "[l](u) x", "gamma"])
manpos = st.fixed_dictionaries({"p": st.lists(HP, min_size=1, max_size=4), "last": st.one_of(gens.word, gens.word, st.just("[end](http://e.com/)"), st.just("[end][ref]")), "id": st.sampled_from([None, "[my-id]", "{#my-id}", "{: #my-id}"]), "mode": st.sampled_from([2, 3, 4])})


def t_manpos(case, ctx):
    """only an id at the very end of a heading is a manual id, whatever comes before it"""
    if case["mode"] != 2 and "{#baz}" in case["p"]: return
    if case["mode"] == 2 and case["id"] == "{: #my-id}": return
    text = " ".join(case["p"] + [case["last"]])
    src = "Intro\n\n## " + text + (" " + case["id"] if case["id"] else "") + "\n\n[ref]: http://e.com/\n"
    html = ctx.w.conv(src, case["mode"])
    ctx.nt(src)
    h = htm.elements(html, "h2")
    vis = text.replace("*", "").replace("`", "").replace("[l](u)", "l").replace("[end](http://e.com/)", "end").replace("[end][ref]", "end")
    if "end" in case["last"] and ("http://e.com/", "end") not in [(a.get("href"), t) for a, t in htm.elements(html, "a")]: raise Violation("the link at the end of the heading is lost: %r in mode %d\n%s" % (src, case["mode"], html))
    if len(h) != 1 or h[0][1].split() != vis.split(): raise Violation("heading of %r in mode %d is %r\n%s" % (src, case["mode"], h, html))
    if case["id"] and h[0][0].get("id") != "my-id": raise Violation("id of %r in mode %d is %r" % (src, case["mode"], h[0][0].get("id")))
    if not case["id"] and h[0][0].get("id") in ("bar", "baz", "my-id"): raise Violation("id of %r in mode %d is %r" % (src, case["mode"], h[0][0].get("id")))


def t_bracket(case, ctx):
    """a heading that is only bracketed text keeps it"""
    src = "Intro\n\n## [" + case["w"] + "]\n\nend\n"
    h = htm.elements(ctx.w.conv(src, case["mode"]), "h2")
    ctx.nt(src)
    if len(h) != 1 or h[0][1].strip("[]") != case["w"]: raise Violation("heading of %r in mode %d is %r" % (src, case["mode"], h))


PROPS = [Prop("bracket", lambda: st.fixed_dictionaries({"w": st.sampled_from(["Unreleased", "1.0.0", "a b", "x-y", "Zq"]), "mode": st.integers(0, 4)}), t_bracket, 25, 60), Prop("manpos", lambda: manpos, t_manpos, 600, 6000), 
    Prop("id", lambda: st.fixed_dictionaries({"t": st.lists(tok, max_size=12)}), t_id, 12000),
    Prop("manual", lambda: st.fixed_dictionaries({"b": st.lists(gens.uword, min_size=1, max_size=3).map(" ".join), "i": st.text("abcXYZ019-_.", min_size=1, max_size=12),
                                                  "s": st.sampled_from(["", " ", "  "]), "k": st.sampled_from("[{"), "e": st.sampled_from(["", " ", "\t "])}), t_manual, 2000),
    Prop("documents", lambda: st.fixed_dictionaries({"d": hdoc(), "m": st.sampled_from([2, 3, 4, 4]), "f": st.sampled_from([None, None, 0, 1, 2])}), t_doc, 2500),
    Prop("toc", lambda: st.fixed_dictionaries({"d": hdoc(), "m": st.sampled_from([2, 3, 4, 4]), "k": st.integers(0, len(MARK) - 1), "at": st.integers(0, 5)}), t_toc, 2500),
]
