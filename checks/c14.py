"""C14 - the JSON syntax tree is valid, complete and survives a round trip; AST filters see and replace exactly it."""
import json, os, re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, cli

BINS = ["worker", "apex"]
RULE = ("Pandoc trees are generated directly (every block and inline type, nested), encoded as JSON in several equivalent ways (key order, \\u escapes, spacing, missing \"c\" of empty nodes), read by the library and compared with a Python rendering to HTML; Markdown generated from such trees must give the same tree as JSON output; "
        "arbitrary documents in CommonMark mode must give valid JSON that renders to the HTML of the document. Filters are run as processes over generated chains of identity, substituting, failing, non-reading and garbage-writing programs and compared with a model of the chain. Non-trivial: the tree has nested structure, or the chain changes the document.")
ASSUMPTIONS = ["tables and footnotes are carried as raw HTML", "filter chains run on a sample of documents, some larger than a pipe buffer"]

A0 = ["", [], []]
txt = st.sampled_from(["alpha", "b c", "", "é", "中文", "\U0001f600", 'q"q', "a<b>&c", "back\\slash", "tab\tx", "a/b", "x\u2028y", "\x01", "'s", "{}[]", "]}", "\\u0041", "end\\", "?", "what?!"])
url = st.sampled_from(["http://e.com/x", "a.png", "", "http://e.com/?a=b&c=d", "#frag", "/p/é"])
title = st.sampled_from(["", "", "T", 'a "q"', "é<"])


def n(t, *c):
    return {"t": t, "c": c[0]} if c else {"t": t}


leaf = st.one_of(txt.map(lambda s: n("Str", s)), txt.map(lambda s: n("Str", s)), st.just(n("Space")), st.just(n("SoftBreak")), st.just(n("LineBreak")),
                 txt.map(lambda s: n("Code", [A0, s])), st.sampled_from(["<b>", "</b>", "<br/>", "&copy;"]).map(lambda s: n("RawInline", ["html", s])),
                 st.tuples(st.sampled_from(["InlineMath", "DisplayMath"]), st.sampled_from(["x+1", "a_b", "\\frac12"])).map(lambda p: n("Math", [{"t": p[0]}, p[1]])))
alt = st.lists(st.sampled_from([n("Str", "img"), n("Space"), n("Str", "é\""), n("Emph", [n("Str", "e")])]), max_size=3)
image = st.builds(lambda a, u, t: n("Image", [A0, a, [u, t]]), alt, url, title)


def inl_ext(ch):
    ls = st.lists(ch, max_size=4)
    attr = st.sampled_from([A0, ["i", ["c1", "c2"], [["k", "v"]]]])
    return st.one_of(ls.map(lambda l: n("Emph", l)), ls.map(lambda l: n("Strong", l)), ls.map(lambda l: n("Strikeout", l)), ls.map(lambda l: n("Superscript", l)), ls.map(lambda l: n("Subscript", l)), ls.map(lambda l: n("Underline", l)),
                     st.builds(lambda a, l: n("Span", [a, l]), attr, ls), st.builds(lambda a, l, u, t: n("Link", [a, l, [u, t]]), attr, ls, url, title), image)


inlines = st.lists(st.recursive(leaf, inl_ext, max_leaves=6), max_size=5)
code = st.sampled_from(["x", "x\n", "a\n\nb", "", "<&>\"", "```", "é\n", "end\\", "\tt"])
bleaf = st.one_of(inlines.map(lambda l: n("Para", l)), inlines.map(lambda l: n("Para", l)), inlines.map(lambda l: n("Plain", l)),
                  st.builds(lambda k, l: n("Header", [k, ["h", [], []], l]), st.integers(1, 6), inlines), st.just(n("HorizontalRule")),
                  st.builds(lambda cl, c: n("CodeBlock", [["", cl, []], c]), st.sampled_from([[], ["py"], ["c", "numberLines"], ["inc"]]), code),
                  st.sampled_from(["<div>\n", "<!-- c -->", "<p>x</p>\n", "<x a=\"b\"/>"]).map(lambda s: n("RawBlock", ["html", s])))


def blk_ext(ch):
    ls = st.lists(ch, max_size=3)
    return st.one_of(ls.map(lambda l: n("BlockQuote", l)), st.lists(ls, min_size=1, max_size=3).map(lambda l: n("BulletList", l)),
                     st.builds(lambda s, d, l: n("OrderedList", [[s, {"t": "Decimal"}, {"t": d}], l]), st.sampled_from([1, 1, 0, 3, 12]), st.sampled_from(["Period", "OneParen", "DefaultDelim"]), st.lists(ls, min_size=1, max_size=3)),
                     st.builds(lambda l: n("Div", [["d", ["w"], []], l]), ls))


blocks = st.lists(st.recursive(bleaf, blk_ext, max_leaves=8), max_size=5)


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def href(s):
    from urllib.parse import quote
    return quote(s, safe="-_.+!*(),%#@?=;:/,+$~&[]'").replace("&", "&amp;").replace("'", "&#x27;")


TAG = {"Emph": "em", "Strong": "strong", "Strikeout": "del", "Superscript": "sup", "Subscript": "sub", "Underline": "u"}


def plain(l):
    out = ""
    for x in l:
        t = x["t"]
        if t == "Str": out += esc(x["c"])
        elif t in ("Space", "SoftBreak", "LineBreak"): out += " "
        elif t in ("Code", "RawInline"): out += esc(x["c"][1])
        elif t in TAG: out += plain(x["c"])
        elif t in ("Link", "Image"): out += plain(x["c"][1])
    return out


def rinl(l):
    out = ""
    for x in l:
        t, c = x["t"], x.get("c")
        if t == "Str": out += esc(c)
        elif t == "Space": out += " "
        elif t == "SoftBreak": out += "\n"
        elif t == "LineBreak": out += "<br />\n"
        elif t in TAG: out += "<%s>%s</%s>" % (TAG[t], rinl(c), TAG[t])
        elif t == "Code": out += "<code>%s</code>" % esc(c[1])
        elif t == "RawInline": out += c[1]
        elif t == "Math": out += ("$%s$" if c[0]["t"] == "InlineMath" else "$$%s$$") % c[1]
        elif t == "Span": out += rinl(c[1])
        elif t == "Link": out += '<a href="%s"%s>%s</a>' % (href(c[2][0]), ' title="%s"' % esc(c[2][1]) if c[2][1] else "", rinl(c[1]))
        elif t == "Image": out += '<img src="%s" alt="%s"%s />' % (href(c[2][0]), plain(c[1]), ' title="%s"' % esc(c[2][1]) if c[2][1] else "")
    return out


def flat(bs):
    out = []
    for b in bs: out += flat(b["c"][1]) if b["t"] == "Div" else [b]
    return out


def rblk(bs, tight=False):
    out = ""
    for b in flat(bs):
        t, c = b["t"], b.get("c")
        if t in ("Para", "Plain"): out += rinl(c) if tight else "<p>%s</p>\n" % rinl(c)
        elif t == "Header": out += "<h%d>%s</h%d>\n" % (c[0], rinl(c[2]), c[0])
        elif t == "HorizontalRule": out += "<hr />\n"
        elif t == "RawBlock": out += ("" if not out or out.endswith("\n") else "\n") + c[1].rstrip("\n") + "\n"
        elif t == "CodeBlock": out += "<pre><code%s>%s%s</code></pre>\n" % (' class="language-%s"' % esc(re.split(r"[ \t\n\v\f\r]", c[0][1][0])[0]) if c[0][1] and c[0][1][0].split() else "", esc(c[1]), "\n" if c[1] else "")
        elif t == "BlockQuote": out += "<blockquote>\n%s</blockquote>\n" % rblk(c)
        elif t in ("BulletList", "OrderedList"):
            items = c if t == "BulletList" else c[1]
            # a list is tight when no item holds a Para of its own (those inside a Div belong to the Div)
            tg = not any(b["t"] == "Para" for it in items for b in it)
            o, e = ("<ul>", "</ul>") if t == "BulletList" else ("<ol>" if c[0][0] == 1 else '<ol start="%d">' % c[0][0], "</ol>")
            out += o + "\n" + "".join("<li>\n%s</li>\n" % rblk(it, tg) for it in items) + e + "\n"
    return out


def nl(h):
    h = re.sub(r"(</?(?:li|ul|ol|p|pre|blockquote|h[1-6]|hr|div|x)\b[^>]*>)\s*", r"\1", h)
    return re.sub(r"\s+(?=</?(?:li|ul|ol|p|pre|blockquote|h[1-6]|hr|div|x)\b)", "", h).strip()


def enc(case, doc):
    how = case["enc"]
    if how & 1:
        def fill(x):
            if isinstance(x, dict): return {k: fill(v) for k, v in ([("c", [])] if "t" in x and "c" not in x and x["t"] in ("Space", "SoftBreak", "LineBreak", "HorizontalRule") else []) + list(x.items())}
            if isinstance(x, list): return [fill(v) for v in x]
            return x
        doc = fill(doc)
    if how & 2:
        def rev(x):
            if isinstance(x, dict): return {k: rev(x[k]) for k in reversed(list(x))}
            if isinstance(x, list): return [rev(v) for v in x]
            return x
        doc = rev(doc)
    return json.dumps(doc, ensure_ascii=bool(how & 4), indent=1 if how & 8 else None, separators=(",", ":") if how & 16 else None)


def top(bs):
    return {"pandoc-api-version": [1, 23, 1], "meta": {"title": {"t": "MetaString", "c": "x"}}, "blocks": bs}


def depth(x):
    if isinstance(x, dict): return ("t" in x) + max([depth(v) for v in x.values()] or [0])
    if isinstance(x, list): return max([depth(v) for v in x] or [0])
    return 0


def t_read(case, ctx):
    src = enc(case, top(case["b"]))
    html, js = ctx.w.call("json2", "mode=4\n", src)[:2]
    if html is None: raise Violation("not read: %s" % src)
    exp = nl(rblk(case["b"]))
    got = nl(html.decode("utf-8", "surrogateescape"))
    if got != exp: raise Violation("JSON read as\n%r\n---\n%r\n---\n%s" % (got, exp, src))
    try: d2 = json.loads(js)
    except ValueError as e: raise Violation("written JSON is not JSON (%s): %r" % (e, js))
    exp2 = nl(rblk(d2["blocks"]))
    if exp2 != exp: raise Violation("JSON written again means\n%r\n---\n%r\n---\n%s" % (exp2, exp, js))
    ctx.nt(src if depth(case["b"]) > 2 else False)


# ---- Markdown -> tree
mw = st.sampled_from(["alpha", "beta", "gamma", "été", "x9"])
ml = st.one_of(mw.map(lambda s: n("Str", s)), mw.map(lambda s: n("Str", s)), mw.map(lambda s: n("Code", [A0, s])), st.sampled_from([("l", "http://e.com/", ""), ("m", "u", "T")]).map(lambda p: n("Link", [A0, [n("Str", p[0])], [p[1], p[2]]])),
               mw.map(lambda s: n("Emph", [n("Str", s)])), st.tuples(mw, mw).map(lambda p: n("Strong", [n("Str", p[0] + " "), n("Emph", [n("Str", p[1])]), n("Str", " z")])), st.just(n("Image", [A0, [n("Str", "pic")], ["p.png", ""]])), mw.map(lambda s: n("Strikeout", [n("Str", s)])))
mline = st.lists(ml, min_size=1, max_size=4).map(lambda l: [n("Str", "w")] + [y for x in l for y in (n("Str", " "), x)])
mleaf = st.one_of(mline.map(lambda l: n("Para", l)), st.builds(lambda k, l: n("Header", [k, A0, l]), st.integers(1, 6), mline), st.just(n("HorizontalRule")),
                  st.builds(lambda c, s: n("CodeBlock", [["", c, []], s]), st.sampled_from([[], ["py"]]), st.sampled_from(["x", "a\n\n  b", "<&\"\\>", "- y\n\n\nz"])))


def m_ext(ch):
    tight = st.lists(mline.map(lambda l: [n("Plain", l)]), min_size=1, max_size=3)
    # a following block keeps a tight item tight only when it is a nested list
    ls = st.lists(ch, min_size=1, max_size=2)
    loose = st.lists(st.builds(lambda l, r: [n("Para", l)] + r, mline, ls), min_size=1, max_size=2)
    return st.one_of(tight.map(lambda l: n("BulletList", l)), st.tuples(st.sampled_from([1, 3, 0]), tight, st.sampled_from(["Period", "OneParen"])).map(lambda p: n("OrderedList", [[p[0], {"t": "Decimal"}, {"t": p[2]}], p[1]])),
                     loose.map(lambda l: n("BulletList", l)), ls.map(lambda l: n("BlockQuote", l)))


mdoc = st.lists(st.recursive(mleaf, m_ext, max_leaves=6), min_size=1, max_size=5)


def minl(l):
    out = ""
    for x in l:
        t, c = x["t"], x.get("c")
        out += {"Str": lambda: c, "Code": lambda: "`" + c[1] + "`", "Emph": lambda: "*" + minl(c) + "*", "Strong": lambda: "**" + minl(c) + "**", "Strikeout": lambda: "~~" + minl(c) + "~~",
                "Link": lambda: "[%s](%s%s)" % (minl(c[1]), c[2][0], ' "%s"' % c[2][1] if c[2][1] else ""), "Image": lambda: "![%s](%s)" % (minl(c[1]), c[2][0])}[t]()
    return out


def indent(s, first, rest):
    ls = s.rstrip("\n").split("\n")
    return "\n".join((first if i == 0 else rest if l or rest.startswith(">") else "") + l for i, l in enumerate(ls)) + "\n"


def mblk(bs):
    out, prev = [], None
    for b in bs:
        t, c = b["t"], b.get("c")
        if t in ("Para", "Plain"): s = minl(c) + "\n"
        elif t == "Header": s = "#" * c[0] + " " + minl(c[2]) + "\n"
        elif t == "HorizontalRule": s = "***\n"
        elif t == "CodeBlock": s = "```" + "".join(c[0][1]) + "\n" + c[1] + "\n```\n"
        elif t == "BlockQuote": s = indent(mblk(c), "> ", "> ")
        else:
            items = c if t == "BulletList" else c[1]
            lt = items[0][0]["t"] == "Plain"
            marks = ["- "] * len(items) if t == "BulletList" else ["%d%s " % (c[0][0] + i, "." if c[0][2]["t"] == "Period" else ")") for i in range(len(items))]
            s = ("" if lt else "\n").join(indent(mblk(it), m, " " * len(m)) for m, it in zip(marks, items))
        # two neighbouring lists or quotes would merge
        if prev in ("BulletList", "OrderedList", "BlockQuote") and t in ("BulletList", "OrderedList", "BlockQuote"): out.append("sep\n")
        out.append(s); prev = t
    return "\n".join(out)


def with_sep(bs):
    out = []
    for b in bs:
        if out and out[-1]["t"] in ("BulletList", "OrderedList", "BlockQuote") and b["t"] in ("BulletList", "OrderedList", "BlockQuote"): out.append(n("Para", [n("Str", "sep")]))
        t, c = b["t"], b.get("c")
        if t == "BlockQuote": b = n(t, with_sep(c))
        elif t == "BulletList": b = n(t, [with_sep(i) for i in c])
        elif t == "OrderedList": b = n(t, [c[0], [with_sep(i) for i in c[1]]])
        out.append(b)
    return out


def canon(x):
    """merge neighbouring strings, drop the empty c of nullary nodes"""
    if isinstance(x, dict):
        if x.get("t") in ("HorizontalRule", "SoftBreak", "LineBreak", "Space"): return {"t": x["t"]}
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, list):
        out = []
        for v in map(canon, x):
            if isinstance(v, dict) and v.get("t") == "Str" and out and isinstance(out[-1], dict) and out[-1].get("t") == "Str": out[-1] = n("Str", out[-1]["c"] + v["c"])
            else: out.append(v)
        return [v for v in out if not (isinstance(v, dict) and v.get("t") == "Str" and v["c"] == "")]
    return x


def t_md(case, ctx):
    bs = with_sep(case["b"])
    # a loose list ends up loose only if blank lines separate its content, which mblk writes
    src = mblk(case["b"])
    if case["mode"] == 0:
        if "~~" in src: return
    out = ctx.w.conv(src, mode=case["mode"], output_format=case["fmt"])
    try: d = json.loads(out)
    except ValueError as e: raise Violation("JSON output is not JSON (%s):\n%s\n---\n%s" % (e, src, out))
    got = canon(d.get("blocks"))
    exp = canon(bs)
    if got != exp: raise Violation("tree of\n%s\n%s\n---\n%s" % (src, json.dumps(got, ensure_ascii=False), json.dumps(exp, ensure_ascii=False)))
    ctx.nt(src if depth(exp) > 2 else False)


def t_any(case, ctx):
    """any document, CommonMark mode: tree -> HTML (both by the library and by the model) = HTML"""
    t = case["t"].replace("\0", "").replace("{%", "{ %")
    if not t: return
    h = ctx.w.conv(t, mode=0, unsafe=1, generate_header_ids=0, github_pre_lang=0)
    j = ctx.w.conv(t, mode=0, unsafe=1, generate_header_ids=0, output_format=case["fmt"])
    try: d = json.loads(j)
    except ValueError as e: raise Violation("JSON output is not JSON (%s): %r\n%r" % (e, t, j))
    ref = ctx.w.call("cmark", (1 << 9) | (1 << 12) | (1 << 17), "", t.encode("utf-8", "surrogatepass"))[0].decode("utf-8", "surrogateescape")
    html = ctx.w.call("json2", "mode=0\n", j.encode("utf-8", "surrogatepass"))[0]
    if html is None: raise Violation("own JSON is not read back: %r" % j)
    sq = lambda s: re.sub(r"\s+", "", s)
    a, b = sq(ref), sq(html.decode("utf-8", "surrogateescape"))
    if a != b: raise Violation("document %r\nHTML by way of JSON:\n%r\n---\n%r" % (t, b, a))
    m = sq(rblk(d["blocks"]))
    if re.search(r'(href|src)="[^"]*[^\w"/:.#-]', ref): ctx.label("special url")
    elif m != a: raise Violation("document %r\nmeaning of the JSON:\n%r\n---\n%r" % (t, m, a))
    ctx.nt(t if depth(d["blocks"]) > 2 else False)


# ---- filters
KINDS = ["id", "ab", "bc", "fail", "noread", "garbage", "empty", "crash", "target", "up"]
SCRIPTS = {"id": "cat", "ab": "sed s/MARKA/MARKB/g", "bc": "sed s/MARKB/MARKC/g", "fail": "cat; exit 3", "noread": "echo '{\"blocks\":[{\"t\":\"Para\",\"c\":[{\"t\":\"Str\",\"c\":\"replaced MARKA\"}]}]}'", "garbage": "cat >/dev/null; echo 'no json'",
           "empty": "cat >/dev/null; echo '{\"blocks\":[]}'", "crash": "cat >/dev/null; kill -9 $$", "target": "sed s/TARGET/$APEX_TARGET_FORMAT/g", "up": "tr a-b a-b"}
fcase = st.fixed_dictionaries({"b": mdoc, "chain": st.lists(st.sampled_from(KINDS), min_size=1, max_size=4), "strict": st.booleans(), "big": st.sampled_from([0, 0, 0, 1]), "fmt": st.sampled_from(["html", "html", "json-filtered"])})


def t_filter(case, ctx):
    d = os.path.join(ctx.scratch, "home", ".config", "apex", "filters")
    if not os.path.isdir(d):
        os.makedirs(d)
        for k, s in SCRIPTS.items():
            p = os.path.join(d, k); cli.put(p, "#!/bin/sh\n" + s + "\n"); os.chmod(p, 0o755)
    base = "MARKA TARGET\n\n" + mblk(case["b"]) + ("\n" + "\n".join("filler line number %d with some words\n" % i for i in range(4000)) if case["big"] else "")
    fmt = ["-t", case["fmt"]]
    src, ok = base, True
    for k in case["chain"]:
        if k in ("fail", "garbage", "crash"):
            if case["strict"]: ok = False; break
        elif k == "ab": src = src.replace("MARKA", "MARKB")
        elif k == "bc": src = src.replace("MARKB", "MARKC")
        elif k == "target": src = src.replace("TARGET", "json" if "json" in case["fmt"] else "html")
        elif k == "noread": src = "replaced MARKA\n"
    args = ["--mode", "gfm"] + fmt
    rc, out, err = cli.run(ctx, args + ([] if case["strict"] else ["--no-strict-filters"]) + [y for k in case["chain"] for y in ("--filter", k)], base)
    ctx.nt([case["chain"], case["strict"], len(base)])
    if not ok:
        if rc == 0 or out.strip(): raise Violation("chain %s with a failing filter: exit %d and output %r" % (case["chain"], rc, out[:300]))
        return
    erc, exp, _ = cli.run(ctx, args, src)
    if rc != erc: raise Violation("chain %s exits %d: %s" % (case["chain"], rc, err[-300:]))
    if "json" in case["fmt"]:
        try: out, exp = canon(json.loads(out)["blocks"]), canon(json.loads(exp)["blocks"])
        except ValueError as e: raise Violation("chain %s: filtered output is not JSON (%s)" % (case["chain"], e))
    if out != exp: raise Violation("chain %s of\n%s\n%s\n---\n%s" % (case["chain"], base[:1500], out[:3000] if isinstance(out, str) else out, exp[:3000] if isinstance(exp, str) else exp))


rcase = st.fixed_dictionaries({"b": blocks, "enc": st.integers(0, 31)})
PROPS = [
    Prop("read", lambda: rcase, t_read, 1500, 40000),
    Prop("markdown", lambda: st.fixed_dictionaries({"b": mdoc, "mode": st.sampled_from([0, 1]), "fmt": st.sampled_from([1, 2])}), t_md, 600, 20000),
    Prop("any", lambda: st.fixed_dictionaries({"t": gens.doc, "fmt": st.sampled_from([1, 2])}), t_any, 800, 30000),
    Prop("filters", lambda: fcase, t_filter, 60, 800),
]
