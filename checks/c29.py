"""C29 - formulas, Liquid tags and wiki links: what they hold is theirs, and nothing else changes."""
import html as H
import os
import re
import urllib.parse
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation

BINS = ["worker"]
RULE = ("Documents with formulas ($..$, $$..$$) and Liquid tags ({% .. %}) whose contents are random sequences of the syntax of every extension, in paragraphs, headings, lists, quotes, tables, emphasis, links, notes, definitions and destinations; the output must be that of the same document with words in their place, the words replaced by "
        "the escaped formula or the verbatim tag. Prices, escaped dollars and unclosed marks are text: the output is that with math off. Wiki links in all places with text become links to exactly the page by the documented rules for spaces, sanitising and extension. Non-trivial: the contents have syntax of an extension.")
ASSUMPTIONS = ["no backticks, Liquid tags or blank lines in formulas", "formulas are not looked for in definitions and HTML"]
W = ["alpha", "beta", "gamma", "delta", "omega", "river", "stone", "cloud"]
PIECE = ["x", "y", "a_1", "b^2^", "_{i}", "^2", "==z==", "++w++", "~t~", "*p*", "_q_", "**", "<b>", "a<b", "a > b", "&", "&amp;", ":smile:", ":tada:", "{++i++}", "{--d--}", "{~~a~>b~~}", "\"q\"", "'", "--", "...", "[x]", "[^n]", "[t](u)", "http://e.com/a", "m@e.com", "(!idx)", "[@key]", "[[w]]", "HTML",
         "\\alpha", "\\frac{a}{b}", "\\{", "\\_", "{.c}", "{#i}", "{:.k}", "<!--c-->", "#tag", "[%title]", "+", "=", "(", ")", "é", "1.", "!", "~~s~~", "^", "~", "[>ab]", "<<x>>", "{{f.md}}", "%", "/*", "|"]
piece = st.sampled_from(PIECE)
content = st.lists(st.tuples(piece, st.sampled_from(["", " ", " "])), min_size=1, max_size=5).map(lambda l: "".join(a + b for a, b in l).strip())
KIND = ["para", "para", "para", "head", "item", "quote", "cell", "em", "link", "note", "two", "start", "dest", "def", "nested"]
OPTS = st.fixed_dictionaries({}, optional={k: st.just(1) for k in ("enable_hashtags", "enable_indices", "enable_wiki_links", "proofreader_mode", "enable_citations", "enable_smart_typography")} | {"critic_mode": st.integers(0, 2), "unsafe": st.just(1)})
case_s = st.fixed_dictionaries({"b": st.lists(st.tuples(st.sampled_from(KIND), st.sampled_from(["$", "$", "$", "$$", "%", "%"]), content, content, st.sampled_from(W), st.integers(0, 5)), min_size=1, max_size=4), "mode": st.sampled_from([2, 3, 4, 4, 4]), "opt": OPTS, "abbr": st.booleans()})


def esc(s): return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def form(kind, c, place, k):
    """-> (source, expected HTML)"""
    if place in ("cell", "quote", "def"): c = c.replace("|", "/")
    if kind == "%":
        c = c.replace("%", "p").replace("|", "/") if place == "cell" else c.replace("%", "p")
        if place == "dest": c = re.sub(r"[<>]", "", c)
        t = "{% " + c + " %}" if k % 3 else "{%" + c + "%}"
        return t, t
    if place == "link": c = re.sub(r"[\[\]<>]", "/", c)
    c = c.strip().rstrip("\\") or "x"
    if c == "$": c = "x"
    if kind == "$": return "$%s$" % c, '<span class="math inline">\\(%s\\)</span>' % esc(c)
    if k % 3 == 0 and place in ("para", "em", "start"): c = "\na " + c + "\nx\n"
    return "$$%s$$" % c, '<span class="math display">\\[%s\\]</span>' % esc(c)


def build(case, subst):
    out, n = ["Start.\n"], 0
    rep = []

    def f(kind, c, place, k):
        nonlocal n
        n += 1
        s, e = form(kind, c, place, k)
        w = "Qz%dqv" % n
        rep.append((w, e))
        return w if subst else s
    for place, kind, c, c2, w, k in case["b"]:
        if kind != "%" and place in ("dest", "def"): kind = "%"
        a = f(kind, c, place, k)
        if place == "para": out.append("%s %s end.\n" % (w, a))
        elif place == "start": out.append("(%s) %s.\n" % (w, a) if k % 2 else "Is %s\n%s too.\n" % (a, w))
        elif place == "head": out.append("%s %s %s\n" % ("#" * (1 + k % 3), w, a))
        elif place == "item": out.append("- %s\n- %s %s\n\nEnd.\n" % (w, a, w))
        elif place == "nested": out.append("- %s\n\n  > %s %s x\n\nEnd.\n" % (w, w, a))
        elif place == "quote": out.append("> %s %s x\n" % (w, a))
        elif place == "cell": out.append("| h | i |\n|---|---|\n| %s %s | %s |\n\nEnd.\n" % (w, a, w))
        elif place == "em": out.append("*%s %s x* and **%s**.\n" % (w, a, w))
        elif place == "link": out.append("See [%s %s x](/u) end.\n" % (w, a))
        elif place == "note": out.append("See[^k%d] it.\n\n[^k%d]: %s %s.\n" % (n, n, w, a))
        elif place == "two": out.append("%s %s and %s %s.\n" % (w, a, f(kind, c2, place, k), w))
        elif place == "dest": out.append("A [%s](%s) b.\n" % (w, a))
        elif place == "def": out.append("%s\n: def %s x\n\nEnd.\n" % (w, a))
    if case["abbr"]: out.append("*[HTML]: Hyper\n*[x]: ex\n")
    return "\n".join(out), rep


def t_verb(case, ctx):
    src, _ = build(case, False)
    ref, rep = build(case, True)
    opt = dict(case["opt"], generate_header_ids=0)
    h, e = ctx.w.conv(src, case["mode"], **opt), ctx.w.conv(ref, case["mode"], **opt)
    for w, x in rep:
        if e.count(w) != 1: return
        e = e.replace(w, x)
    for b in case["b"]: ctx.label(b[0] + b[1])
    if any(re.search(r"[=+~^*_<>\[\]{}:@&\"#]", b[2]) for b in case["b"]): ctx.nt(src)
    if h != e: raise Violation("%r (mode %d, %r)\n%s\n---\n%s" % (src, case["mode"], opt, h[:1500], e[:1500]))


# ---- dollars that are not formulas
NOT = ["$5", "$10.", "\\$a$", "$ a$", "$b $", "`$c$`", "US$", "a\\$b\\$c", "$", "$$", "5$ and 6$ x", "$1 or $2", "```\n$x$\n```", "    $y$\n", "($3 each, $4 all)"]
no_s = st.fixed_dictionaries({"l": st.lists(st.tuples(st.sampled_from(NOT), st.sampled_from(W)), min_size=1, max_size=3), "mode": st.sampled_from([2, 3, 4, 4]), "off": st.booleans(), "c": content})


def t_not(case, ctx):
    src = "Start.\n\n" + "\n\n".join("%s%s%s" % ("" if a.startswith(("`", " ")) and "\n" in a else w + " ", a, "" if "\n" in a else " " + w) for a, w in case["l"]) + "\n"
    if case["off"]: src = "Start.\n\nA $%s$ b.\n" % case["c"]
    ctx.nt(src)
    ctx.label("off" if case["off"] else "text")
    h = ctx.w.conv(src, case["mode"], enable_math=0 if case["off"] else 1)
    if case["off"]:
        if 'class="math' in h: raise Violation("math is off: %r\n%s" % (src, h))
        return
    e = ctx.w.conv(src, case["mode"], enable_math=0)
    if h != e: raise Violation("no formula in %r (mode %d)\n%s\n---\n%s" % (src, case["mode"], h[:1500], e[:1500]))


# ---- wiki links
PG = ["Home", "Page", "a/b", "x.y", "Ça", "über", "It's", "R&D", "C+", "naïve", "Æon", "Straße", "2024", "(old)", "q?", "été", "A-B", "c_d", "E,F", "x=y", "日本"]
page = st.lists(st.sampled_from(PG), min_size=1, max_size=3).map(" ".join)
wl = st.fixed_dictionaries({"p": page, "s": st.one_of(st.none(), st.none(), st.sampled_from(["Sec", "My Part", "s-1"])), "d": st.one_of(st.none(), st.none(), st.sampled_from(["show", "two words", "a & b", "x < y", "don't"]))})
wiki_s = st.fixed_dictionaries({"l": st.lists(st.tuples(st.sampled_from(["para", "head", "item", "quote", "em", "cell", "note", "code", "two"]), wl, wl, st.sampled_from(W)), min_size=1, max_size=4), "mode": st.sampled_from([0, 1, 2, 3, 4, 4]), "sp": st.integers(0, 3), "san": st.booleans(), "ext": st.sampled_from([None, None, "html", ".md"]), "on": st.sampled_from([True] * 6 + [False])})
import unicodedata
SP = {0: "-", 1: "", 2: "_", 3: " "}


def wurl(l, case):
    p, sp = l["p"], SP[case["sp"]]
    if case["san"]:
        p = re.sub("['\"`´‘’“”]", "", p)
        p = p.replace("Æ", "ae").replace("æ", "ae").replace("ß", "ss")
        p = "".join(unicodedata.normalize("NFD", ch)[0] if 0xC0 <= ord(ch) <= 0xFF else ch for ch in p)
        # every other byte that is no letter, digit, / or . is a separator
        b = bytes((sp.encode() or b"\0")[0] if not (chr(x).isascii() and (chr(x).isalnum() or chr(x) in "/.")) else x for x in p.lower().encode())
        p = b.decode().replace("\0", "")
        if sp:
            p = re.sub(re.escape(sp) + "+", sp, p).strip(sp)
    else: p = p.replace(" ", sp)
    if case["ext"]: p += "." + case["ext"].lstrip(".")
    if l["s"] is not None: p += "#" + l["s"]
    return p


def wsrc(l): return "[[" + l["p"] + ("#" + l["s"] if l["s"] is not None else "") + ("|" + l["d"] if l["d"] is not None else "") + "]]"


def t_wiki(case, ctx):
    out, ref, rep, n = ["Start.\n"], ["Start.\n"], [], 0
    for place, a, b, w in case["l"]:
        if place == "cell" and not case["mode"]: place = "para"
        if place == "note" and case["mode"] == 1: place = "para"
        if place in ("cell",): a = dict(a, d=None)
        n += 2
        T = {"para": "%s %%s x.\n" % w, "head": "## %s %%s\n" % w, "item": "- %s\n- %%s %s\n\nEnd.\n" % (w, w), "quote": "> %s %%s x\n" % w, "em": "*%s %%s x* and **%s**.\n" % (w, w), "cell": "| h | i |\n|---|---|\n| %s %%s | %s |\n\nEnd.\n" % (w, w),
             "note": "See[^k%d] it.\n\n[^k%d]: %s %%s.\n" % (n, n, w), "code": "%s `%%s` x.\n" % w, "two": "%s %%s, %%s %s.\n" % (w, w)}[place]
        for i in range(T.count("%s")):
            l = a if i == 0 else b
            T = T.replace("%s", "\x01%d\x02" % (n + i), 1)
            if place == "code" or not case["on"]: rep.append((n + i, l, False))
            else: rep.append((n + i, l, True))
        out.append(T)
    src = ref = "\n".join(out)
    for k, l, link in rep:
        src = src.replace("\x01%d\x02" % k, wsrc(l))
        ref = ref.replace("\x01%d\x02" % k, "Qz%dqv" % k)
    o = dict(generate_header_ids=0, enable_smart_typography=0, enable_sup_sub=0, enable_wiki_links=int(case["on"]))
    ow = dict(o, wikilink_space=case["sp"], wikilink_sanitize=int(case["san"]))
    if case["ext"]: ow["wikilink_extension"] = case["ext"]
    h, e = ctx.w.conv(src, case["mode"], **ow), ctx.w.conv(ref, case["mode"], **o)
    ctx.nt(src)
    ctx.label("on" if case["on"] else "off")

    def norm(m): return 'href="%s"' % urllib.parse.unquote(H.unescape(m.group(1)))
    for k, l, link in rep:
        t = wsrc(l) if not link else None
        x = esc(t) if t else '<a href="%s">%s</a>' % (wurl(l, case), esc(l["d"] if l["d"] is not None else l["p"]))
        e = e.replace("Qz%dqv" % k, x)
    h = re.sub(r'href="([^"]*)"', norm, h)
    if h.replace("&quot;", '"') != e.replace("&quot;", '"'): raise Violation("%r (mode %d, %r)\n%s\n---\n%s" % (src, case["mode"], ow, h[:1500], e[:1500]))


PROPS = [Prop("verbatim", lambda: case_s, t_verb, 6000, 60000), Prop("text", lambda: no_s, t_not, 1500, 12000), Prop("wiki", lambda: wiki_s, t_wiki, 3000, 30000)]
