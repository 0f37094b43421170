"""C18 - emoji names: every known name, in text only, becomes its emoji; nothing else changes, however long the text."""
import html as H
import json, os, re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens

BINS = ["worker"]
RULE = ("Text and HTML pieces (emoji names in the spellings accepted, unknown names, clock times, table alignment rows, tags with names in attributes, code, pre, script, style and comments, headings, stray colons), repeated up to thousands of times, are "
        "replaced by the functions for HTML and for text and by whole conversions, and compared with a reference replacement over a frozen copy of the table of names; corrections are compared with a reference edit distance. Non-trivial: at least one name was replaced and one look-alike was not.")
ASSUMPTIONS = ["the 861 names of the pinned table keep their meaning (a later table may add names; generated unknown names contain zq)"]
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "emoji.json")))
BYNAME = {n: (u, i) for n, u, i in TABLE}
NAMES = [n for n, u, i in TABLE]
IMG = [n for n, u, i in TABLE if not u]
PAT = re.compile(r":([A-Za-z0-9_+\-]{1,48}):")


def lookup(name):
    n = name.lower()
    if n in BYNAME: return n
    n = n.replace("-", "_")
    return n if n in BYNAME else None


def scan(s, f):
    """left to right; f(name, start, end) gives the replacement or None"""
    out, i = [], 0
    while i < len(s):
        if s[i] == ":":
            m = PAT.match(s, i)
            if m and m.group(1).strip("-"):
                r = f(m.group(1), i, m.end())
                if r is not None:
                    out.append(r)
                    i = m.end()
                    continue
        out.append(s[i])
        i += 1
    return "".join(out)


def m_text(s):
    def f(name, a, b):
        n = lookup(name)
        return BYNAME[n][0] if n and BYNAME[n][0] else None
    return scan(s, f)


def one(n, head):
    u, img = BYNAME[n]
    if u: return u
    return '<img class="emoji" src="%s" alt=":%s:" %s>' % (img, n, 'style="height: 1em; width: auto; vertical-align: middle;"' if head else 'height="20" width="20" align="absmiddle"')


def m_html(pieces):
    """pieces: (kind, text); only 'text' is subject to replacement - a name does not span a tag"""
    out, head, buf = [], False, []

    def flush():
        def f(name, a, b):
            n = lookup(name)
            return one(n, head) if n else None
        out.append(scan("".join(buf), f))
        del buf[:]
    for kind, t in pieces:
        if kind == "text": buf.append(t)
        else:
            flush()
            if kind == "h": head = True
            elif kind == "/h": head = False
            out.append(t)
    flush()
    return "".join(out)


def spell(n, k):
    if k == 1: return n.upper()
    if k == 2: return n.replace("_", "-") if lookup(n.replace("_", "-")) == n else n
    if k == 3: return n.capitalize()
    return n


name = st.builds(spell, st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(["a", "b", "m", "+1", "-1", "100", "e-mail", "non-potable_water", "octocat", "shipit"]), st.sampled_from(IMG)), st.sampled_from([0, 0, 0, 1, 2, 3]))
ref = name.map(lambda n: ":" + n + ":")
other = st.sampled_from([":zqzqzqzq:", ":zq_7:", "10:30:45", "12:34", ":---:", "::", ":", " : ", "a: b", ": ", ":smile", "smile:", ":sm ile:", ":smile!:", ":x\u00e9y:", "\u00e9", "\U0001f600", "http://e.com:80/a:zq", ":" + "zq" * 30 + ":", "::zqz::", ":-", ":)", "\n", "|:--|:-:|--:|", "word", " ", "a", "-", ".", "&amp;", "&quot;", "\u4e2d:"])
tpiece = st.one_of(ref, ref, other).map(lambda t: ["text", t])
opaque = st.builds(lambda f, n: ["tag", f % n], st.sampled_from(['<a href="%s" title=\'x\'>', "<img alt='%s' src=x>", "<b>", "</b>", "<br />", "<code>%s</code>", '<code class="c">a %s b</code>', "<pre>%s\n</pre>", "<pre><code>%s <b></code></pre>",
                                                              "<script>a<b; '%s'</script>", "<style>a%s</style>", "<!-- %s -->", "<!-- <b> %s -->", "<CODE>%s</CODE>", "<textarea>%s</textarea>", '<span data-x="a>%s">', "<p\nid=\"%s\">"]).map(lambda f: f if "%s" in f else f + "%.0s"), ref)
head = st.builds(lambda k, at, ps: [["h", "<h%d%s>" % (k, at)]] + ps + [["/h", "</h%d>" % k]], st.integers(1, 6), st.sampled_from(["", ' id="a"', " class='x'"]), st.lists(tpiece, max_size=3))
hp = st.one_of(tpiece.map(lambda p: [p]), tpiece.map(lambda p: [p]), opaque.map(lambda p: [p]), head)
REP = st.sampled_from([1, 1, 1, 1, 2, 30, 400])
html_s = st.fixed_dictionaries({"p": st.lists(hp, min_size=1, max_size=8).map(lambda l: [x for y in l for x in y]), "n": REP})
text_s = st.fixed_dictionaries({"p": st.lists(tpiece, min_size=1, max_size=8), "n": REP})


def nontrivial(ctx, src, got):
    if src != got and PAT.search(got): ctx.nt(src[:300])


def diff(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "at %d: got %r, expected %r" % (i, a[max(0, i - 40):i + 80], b[max(0, i - 40):i + 80])


def t_html(case, ctx):
    p = case["p"] * case["n"]
    src = "".join(t for k, t in p)
    got, exp = ctx.w.t2t("apex_replace_emoji", src), m_html(p)
    nontrivial(ctx, src, exp)
    if got != exp: raise Violation("emoji in HTML, %s\nsource (%d bytes): %r" % (diff(got or "", exp), len(src), src[:1500]))


def t_text(case, ctx):
    src = "".join(t for k, t in case["p"]) * case["n"]
    got, exp = ctx.w.t2t("apex_replace_emoji_text", src), m_text(src)
    nontrivial(ctx, src, exp)
    if got != exp: raise Violation("emoji in text, %s\nsource (%d bytes): %r" % (diff(got or "", exp), len(src), src[:1500]))


def lev(a, b, cut):
    if abs(len(a) - len(b)) > cut: return cut + 1
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a):
        cur = [i + 1]
        for j, y in enumerate(b): cur.append(min(prev[j + 1] + 1, cur[j] + 1, prev[j] + (x != y)))
        prev = cur
        if min(prev) > cut: return cut + 1
    return prev[-1]


_best = {}


def best(n):
    """names at the least distance of at most 4, the shortest of them"""
    n = n.lower().replace("-", "_")
    if n not in _best:
        cut, cand = 4, []
        for x in NAMES:
            d = lev(n, x, cut)
            if d < cut: cut, cand = d, [x]
            elif d == cut: cand.append(x)
        k = min([len(x) for x in cand] or [0])
        _best[n] = {x for x in cand if len(x) == k}
    return _best[n]


def typo(n, k, i, c):
    i %= len(n)
    if k == 0: return n[:i] + n[i + 1:]
    if k == 1: return n[:i] + c + n[i:]
    if k == 2: return n[:i] + c + n[i + 1:]
    return n[:i] + n[i + 1:i + 2] + n[i:i + 1] + n[i + 2:]


ty = st.builds(typo, st.sampled_from(NAMES), st.integers(0, 3), st.integers(0, 30), st.sampled_from("aeioutns_x"))
cpiece = st.one_of(st.builds(lambda n: ["name", n], name), st.builds(lambda n: ["typo", n], ty.filter(lambda n: n.strip("-"))), st.builds(lambda n: ["far", n], st.sampled_from(["zqxjkvwzqxjkvw", "qqqqqqqqqqqqqqqqqq", "0123456789012345"])),
                   st.builds(lambda t: ["o", t], st.sampled_from(["10:30:45", " : ", "::", ":---:", "x: y", "\u00e9", "1:2:3", "|:-:|", "a", "\n"])))
corr_s = st.lists(cpiece, min_size=1, max_size=4)


def t_correct(case, ctx):
    src = " ".join(":%s:" % t if k != "o" else t for k, t in case)
    got = ctx.w.t2t("apex_autocorrect_emoji_names", src)
    pat, kinds = [], set()
    for k, t in case:
        if k == "o": pat.append(re.escape(t)); continue
        n = lookup(t)
        c = {n} if n else best(t)
        kinds.add("exact" if n else "corrected" if c else "kept")
        pat.append("(?:" + "|".join(re.escape(":%s:" % x) for x in sorted(c)) + ")" if c else re.escape(":%s:" % t))
    for x in kinds: ctx.label(x)
    if len(kinds) > 1: ctx.nt(src)
    if got is None or not re.fullmatch(" ".join(pat), got): raise Violation("correction of %r gives %r, expected %s" % (src, got, " ".join(pat)))
    again = ctx.w.t2t("apex_autocorrect_emoji_names", got)
    if again != got: raise Violation("correcting %r twice gives %r and then %r" % (src, got, again))


LONGEST = {}
for _n, _u, _i in TABLE:
    if _u: LONGEST.setdefault(_u, []).append(_n)
rev_s = st.one_of(st.sampled_from(sorted(LONGEST)), st.sampled_from(["a", "\u00e9", "\u4e2d", "\U0001f600x", "\U0001f1e6", ""]))


def t_reverse(case, ctx):
    got = ctx.w.call("emojiname", case)[0]
    got = None if got is None else got.decode()
    if case in LONGEST:
        ctx.nt(case)
        k = max(len(x) for x in LONGEST[case])
        if got not in [x for x in LONGEST[case] if len(x) == k]: raise Violation("the name of %r is %r, expected the longest of %r" % (case, got, LONGEST[case]))
    elif got is not None: raise Violation("%r is no emoji, but gets the name %r" % (case, got))


# whole conversions
CON = ["para", "para", "head", "item", "quote", "cell", "em", "link", "code", "codeblock", "attr", "url", "comment", "html"]
doc_s = st.fixed_dictionaries({"b": st.lists(st.tuples(st.sampled_from(CON), st.one_of(st.sampled_from(NAMES), st.sampled_from(["+1", "-1", "100", "octocat", "a"])), st.integers(1, 4)), min_size=1, max_size=7),
                               "mode": st.sampled_from([0, 1, 1, 2, 3, 4, 4, 4]), "auto": st.booleans(), "n": st.sampled_from([1, 1, 1, 20])})


def t_doc(case, ctx):
    m = case["mode"]
    out, exp, keep = ["Begin.\n"], 0, 0
    want = []
    k = 0
    for kind, n, r in case["b"] * case["n"]:
        k += 1
        e = " ".join([":%s:" % n] * r)
        a, b = "zqs%d" % k, "zqe%d" % k
        text = True
        if kind == "head": s = "## %s %s %s" % (a, e, b)
        elif kind == "item": s = "- %s %s %s\n\nx" % (a, e, b)
        elif kind == "quote": s = "> %s %s %s" % (a, e, b)
        elif kind == "cell": s = "| h | i |\n|---|:-:|\n| %s %s %s | x |" % (a, e, b)
        elif kind == "em": s = "%s **%s** %s" % (a, e, b)
        elif kind == "link": s = "%s [%s](http://e.com) %s" % (a, e, b)
        else:
            text = False
            if kind == "code": s = "%s `%s` %s" % (a, e, b)
            elif kind == "codeblock": s = "```\n%s %s %s\n```" % (a, e, b)
            elif kind == "attr": s = '%s <b title="%s">x</b> %s' % (a, e, b)
            elif kind == "url": s = "%s [x](http://e.com/:%s:) %s" % (a, n, b)
            elif kind == "comment": s = "<!-- %s %s %s -->" % (a, e, b)
            elif kind == "html": s = "<pre>\n%s %s %s\n</pre>" % (a, e, b)
            else:
                text = True
                s = "%s %s %s" % (a, e, b)
        if kind == "cell" and m == 0: s, text = "%s %s %s" % (a, e, b), True
        out.append(s + "\n")
        want.append((a, b, n, r, text and m in (1, 4), kind))
    src = "\n".join(out)
    opt = {"unsafe": 1, "enable_emoji_autocorrect": int(case["auto"]), "enable_smart_typography": 0, "generate_header_ids": 0}
    h = ctx.w.conv(src, m, **opt)
    if h is None: raise Violation("no output for %r" % src)
    for a, b, n, r, repl, kind in want:
        ctx.label(kind)
        g = re.search("(?s)%s\\b(.*?)%s\\b" % (a, b), h)
        if not g: raise Violation("text %s…%s is not in the output\nsource: %r\n%s" % (a, b, src[:1500], h[:1500]))
        g = g.group(1)
        if repl:
            ctx.nt(src[:400])
            x = one(n, kind == "head")
            # the alternative text of an image holds the name
            if g.count(x) != r or PAT.search(g.replace(x, "")): raise Violation("%s (%s): %d × :%s: gives %r\nmode %d source %r" % (a, kind, r, n, g, m, src[:1500]))
        else:
            c = H.unescape(g)
            k = 1 if kind == "url" else r
            if c.count(":%s:" % n) != k: raise Violation("%s (%s, mode %d): :%s: is not left alone: %r\nsource %r" % (a, kind, m, n, g, src[:1500]))


PROPS = [Prop("html", lambda: html_s, t_html, 4000, 120000), Prop("text", lambda: text_s, t_text, 4000, 120000), Prop("correct", lambda: corr_s, t_correct, 1600, 60000),
         Prop("reverse", lambda: rev_s, t_reverse, 1600, 10000), Prop("documents", lambda: doc_s, t_doc, 3000, 100000)]
