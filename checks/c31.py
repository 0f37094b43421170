"""C31 - bare addresses become links to exactly themselves; obfuscation changes only the spelling."""
import html
import re
from html.parser import HTMLParser
from hypothesis import strategies as st
from lib import htm
from lib.runner import Prop
from lib.worker import Violation

BINS = ["worker"]
RULE = ("Documents mix bare URLs and e-mail addresses in generated surroundings (parentheses, quotes, emphasis, punctuation, cells, lists, headings, footnotes) with places where addresses must stay "
        "text (code, link texts and destinations, attributes, raw HTML blocks, definitions). The links of the output and its whole text must be those of a model, in all modes with autolinks, and with them off. "
        "Obfuscated output must parse to the same tree as plain output, hold no mail address literally in a link, and be the same elsewhere. Non-trivial: at least one link and one other place.")
ASSUMPTIONS = ["addresses are of the forms http(s)://host/path?query#fragment and name@host.tld", "raw HTML blocks in lists and quotes and addresses inside <a> elements are outside the domain"]


class P(HTMLParser):
    """links (href, text), and the text"""
    def __init__(s):
        super().__init__(convert_charrefs=True)
        s.links, s.text, s.href, s.toks = [], "", None, []

    def handle_starttag(s, t, a):
        s.toks.append((t, a))
        if t == "a":
            s.href, s.buf = dict(a).get("href"), ""
        if t == "img": s.text += dict(a).get("alt") or ""

    def handle_endtag(s, t):
        s.toks.append(("/" + t,))
        if t == "a" and s.href is not None:
            s.links.append((s.href, s.buf))
            s.href = None

    def handle_data(s, d):
        s.toks.append(d)
        s.text += d
        if s.href is not None: s.buf += d


def parse(h):
    p = P()
    p.feed(h)
    p.close()
    return p


host = st.sampled_from(["x.com", "ex-ample.org", "a.b.co.uk", "localhost", "10.0.0.1:8080", "EX.com"])
path = st.lists(st.sampled_from(["/a", "/b_c_d", "/e-f", "/g.html", "/h(i)", "/~u", "/j%20k", "/l+m", "/n:8", "/@p", "/q*r", "/s;t", "/", "/v-", "/w[1]", "/y(z)A", "/x="]), max_size=3).map("".join)
tail = st.sampled_from(["", "", "?q=1", "?q=1&r=2", "#f", "?a[]=1", "?u=http://z.y/w", "#a=b"])
url = st.tuples(st.sampled_from(["http://", "https://"]), host, path, tail).map("".join)
mail = st.tuples(st.sampled_from(["me", "a.b", "x_y", "k+tag", "J-d", "n0"]), st.sampled_from(["e.com", "mail.ex-ample.org", "b.co.uk", "x2.io"])).map("@".join)
word = st.sampled_from(["alpha", "beta", "gamma delta", "eps", "at 5", "x", "é", "no@", "@ho", "a@b", "http", "https: x", "e.g. it"])
CTX = ["%s", "%s", "%s", "(%s)", "(see %s)", "(%s, x)", "*%s*", "**%s**", '"%s"', "'%s'", "%s.", "%s,", "%s!", "%s?", "%s:", "%s;", "%s).", "%s...", "~~%s~~", "%s[^1]", "x %s\ny", "%s\n%s"]
NEG = ["`%s`", "``a %s b``", "z<!-- %s -->", "x<b title=\"%s\">y</b>", "x<i data-u='%s z'>y</i>"]
LINKS = ["[see %s here](/u)", "[%s](/u)", "[t](%s)", "[t](%s \"ti\")", "[%s][r]", "[t][r]", "<%s>", "![%s](/i)", "![alt %s x](/i)"]


def model(kind, pat, a, m):
    """links, text of one segment"""
    href = ("mailto:" if m else "") + a
    if kind == "bare":
        n = pat.count("%s")
        t = pat.replace("*", "").replace("~~", "").replace("[^1]", "1")
        return [(href, a)] * n + ([("#fn-1", "1")] if "[^1]" in pat else []), t.replace("%s", a)
    if kind == "neg":
        if pat[0] == "`": return [], pat.strip("`").replace("%s", a)
        return [], "z" if pat.startswith("z<!--") else "xy"
    if pat.startswith("!"): return [], pat[2:pat.index("]")].replace("%s", a)
    if pat[0] == "<": return [(href, a)], a
    t = pat[1:pat.index("]")].replace("%s", a)
    if "[r]" in pat: return [("/ref", t)], t
    d = pat[pat.index("(") + 1:-1].split(" ")[0]
    return [(a if d == "%s" else d, t)], t


def seg():
    return st.one_of(st.tuples(st.just("bare"), st.sampled_from(CTX), st.one_of(url, mail)), st.tuples(st.just("bare"), st.sampled_from(CTX), st.one_of(url, mail)),
                     st.tuples(st.just("neg"), st.sampled_from(NEG), st.one_of(url, mail)), st.tuples(st.just("link"), st.sampled_from(LINKS), st.one_of(url, mail)),
                     st.tuples(st.just("word"), word, st.just("")))


BLOCKS = ["%s", "%s", "%s", "# %s", "> %s", "- %s\n- b", "1. %s", "| a | b |\n|---|---|\n| %s | c |", "a\n%s", "<div>%s</div>", "<div>\n%s\n</div>", "```\n%s\n```", "    %s", "> - %s"]


@st.composite
def doc(draw):
    bl = []
    for _ in range(draw(st.integers(1, 4))):
        b = draw(st.sampled_from(BLOCKS))
        bl.append([b, [list(s) for s in draw(st.lists(seg(), min_size=1, max_size=4))]])
    return {"b": bl, "m": draw(st.sampled_from([1, 2, 3, 4])), "on": draw(st.sampled_from([1, 1, 1, 0]))}


def build(case):
    out, links, text = ["Start"], [], ["Start"]
    gfm = case["m"] == 1
    for b, segs in case["b"]:
        raw = b.startswith(("<div", "```", "    "))
        src, ls, tx = [], [], []
        for kind, pat, a in segs:
            ismail = "@" in a and "://" not in a
            if kind == "word":
                src.append(pat); tx.append(pat)
                continue
            if raw and kind != "bare": continue
            if kind == "link" and ismail and pat.startswith("[t]("): pat = "[%s](/u)"
            if "~~" in pat and case["m"] in (2, 3): pat = "%s"                           # no strikethrough there
            if "|" in b or b[0] == "#" or raw or b.startswith((">", "-", "1.")): pat = pat.replace("\n", " ")
            if raw or "[^1]" in pat and (gfm or b[0] == "#"): pat = pat.replace("[^1]", "")   # no footnotes there
            if "?a[]" in a and kind == "link": a = a.replace("?a[]=1", "")
            if not case["on"] or kind == "link":
                a = a.replace("/q*r", "/qr").replace("/~u", "/u")                        # marks of emphasis in plain text
            if "|" in b and pat == "%s:": pat = "%s"                                      # a colon there is alignment
            l, t = model(kind, pat, a, ismail)
            if not case["on"] and kind == "bare":
                l = [x for x in l if x[0].startswith("#fn")]
            src.append(pat.replace("%s", a)); ls += l; tx.append(t)
        if not src: continue
        s = " ".join(src)
        if raw:
            ls = []
            if b.startswith("<div"): tx = [html.unescape(s)]
            else: tx = [s]
        out += ["w", b.replace("%s", s)]
        text.append("w")
        pre = {"- %s\n- b": ("", " b"), "| a | b |\n|---|---|\n| %s | c |": ("a b ", " c"), "a\n%s": ("a ", "")}.get(b, ("", ""))
        text.append(pre[0] + " ".join(tx) + pre[1])
        links += ls
    t = "\n\n".join(out) + "\n\nEnd\n\n[r]: /ref\n\n[^1]: note\n"
    return t, links, " ".join(text + ["End"])


def squash(s): return re.sub(r"\s+", "", s)


def check(case, ctx):
    t, links, text = build(case)
    h = ctx.w.conv(t, mode=case["m"], enable_autolink=case["on"], generate_header_ids=0, unsafe=1, enable_smart_typography=0, obfuscate_emails=0, enable_image_captions=0, enable_sup_sub=0, hardbreaks=0, enable_emoji_autocorrect=0)
    h = h.split('<section class="footnotes"')[0]
    h = re.sub(r'<sup class="footnote-ref">.*?</sup>', '<a href="#fn-1">1</a>', h)
    p = parse(h)
    got = [(html.unescape(re.sub("%[0-9A-F]{2}", lambda m: m.group(0), u or "")), x) for u, x in p.links]
    if got != [(u.replace("[", "%5B").replace("]", "%5D"), x) for u, x in links] and got != links:
        raise Violation("the links are not those of the text (mode %d, autolink %d):\n%s\nexpected %r\ngot      %r\n%s" % (case["m"], case["on"], t, links, got, h))
    if squash(p.text) != squash(text) and "note" not in p.text[-6:]:
        raise Violation("the text changed:\n%s\nexpected %r\ngot      %r\n%s" % (t, squash(text), squash(p.text), h))
    for _, segs in case["b"]:
        for k, pat, _a in segs: ctx.label(k)
    ctx.nt(bool(links) and len(case["b"]) > 1)


@st.composite
def obf(draw):
    parts = []
    for _ in range(draw(st.integers(1, 4))):
        m = draw(mail)
        parts.append(draw(st.sampled_from(["%s", "<%s>", "[text](mailto:%s)", "[é text & *em* `c`](mailto:%s)", "[a](mailto:%s?subject=x&body=y%%20z)", "[a &lt; b](mailto:%s \"ti & é\")", "`%s`", "http://x.com/%s", "word", "[u](/mailto)", "<a href=\"mailto:%s\" class='q'>raw &amp; é 中</a>", "[😀](mailto:%s)", "x@y", "mailto:%s", "&amp; é", "![mail](/i.png)"])).replace("%s", m).replace("%%", "%"))
    return {"t": "Start\n\n" + draw(st.sampled_from([" ", "\n\n", "\n- "])).join(parts) + "\n", "m": draw(st.sampled_from([1, 2, 3, 4])), "s": draw(st.integers(0, 1))}


def check_obf(case, ctx):
    o = dict(mode=case["m"], generate_header_ids=0, unsafe=1, enable_smart_typography=case["s"])
    a, b = ctx.w.conv(case["t"], obfuscate_emails=0, **o), ctx.w.conv(case["t"], obfuscate_emails=1, **o)
    if parse(a).toks != parse(b).toks and [x for x in parse(a).toks] != [x for x in parse(b).toks]:
        raise Violation("obfuscated output says something else:\n%s\n---\n%s" % (a, b))
    anchor = re.compile(r'(?s)<a href="(?:mailto:|&#x6D;)[^>]*>.*?</a>')
    if anchor.sub("@", a) != anchor.sub("@", b):
        raise Violation("obfuscation changed more than mail links:\n%s\n---\n%s" % (a, b))
    n = 0
    for x, y in zip(anchor.findall(a), anchor.findall(b)):
        n += 1
        m = re.search(r"mailto:([^\"?]*)", x).group(1)
        if "mailto:" in y or m in y:
            raise Violation("the address %r can be read in %s" % (m, y))
        t = re.sub(r"<[^>]*>", "", y)
        if re.search(r"[A-Za-z@.]", re.sub(r"&#?\w+;", "", t)):
            raise Violation("the text of a mail link is not obfuscated: %s" % y)
    ctx.nt(n > 0)
    ctx.label("mail links %d" % min(n, 3))


def t_dollar(case, ctx):
    """an address that ends with a dollar sign becomes a formula: a finding, reported as long as it lasts"""
    u = "http://%s.com/x$" % case["w"]
    h = ctx.w.conv("see %s here\n" % u, mode=4)
    if [(a.get("href"), t) for a, t in htm.elements(h, "a")] == [(u, u)]: return
    if "math inline" in h: ctx.known_finding("C31-dollar")
    else: raise Violation("the address %s gives\n%s" % (u, h))


PROPS = [Prop("dollar", lambda: st.fixed_dictionaries({"w": st.just("x")}), t_dollar, 8, 8), Prop("links", doc, check, 2400, 60000), Prop("obfuscation", obf, check_obf, 1200, 30000)]
