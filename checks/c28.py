"""C28 - callouts, fenced divs, Markdown in HTML, definition lists and special markers hold exactly their content."""
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import htm

BINS = ["worker"]
RULE = ("Documents are generated as trees of callouts (all types and aliases, foldable, titles with markup), fenced divs (any number of colons, classes, ids, attributes, block types, trailing colons, unclosed at the end), HTML blocks with markdown=1/block/span/0, "
        "definition lists, quotes, lists, code and paragraphs, nested where the syntax allows; the parsed output must be exactly the tree. Markers (page breaks, pauses, end of block) become their element and nothing else changes. With the option off "
        "or in another mode the syntax stays text. Non-trivial: at least one container with content.")
ASSUMPTIONS = ["the content of fenced divs, HTML blocks and definitions is CommonMark with Apex's text-level syntaxes (tables, tasks and callouts are not looked for there)", "callouts keep their blockquote inside"]
TYPES = {"note": ["note"], "abstract": ["abstract", "summary", "tldr"], "info": ["info"], "todo": ["todo"], "tip": ["tip", "hint", "important"], "success": ["success", "check", "done"], "question": ["question", "help", "faq"],
         "warning": ["warning", "caution", "attention"], "failure": ["failure", "fail", "missing"], "danger": ["danger", "error"], "bug": ["bug"], "example": ["example"], "quote": ["quote", "cite"]}
ALIAS = [(a, t) for t, l in TYPES.items() for a in l]
TAGS = ["div", "section", "article", "aside", "div", "header", "footer", "main", "nav"]
word = st.sampled_from(["alpha", "beta", "gamma", "delta", "omega", "café", "river", "stone", "cloud", "Ember", "north", "42"])
frag = st.one_of(word.map(lambda w: (w, w)), word.map(lambda w: (w, w)), word.map(lambda w: ("*%s*" % w, "<em>%s</em>" % w)), word.map(lambda w: ("**%s**" % w, "<strong>%s</strong>" % w)), word.map(lambda w: ("`%s`" % w, "<code>%s</code>" % w)),
                 word.map(lambda w: ("[%s](/u)" % w, "<a href=\"/u\">%s</a>" % w)), word.map(lambda w: ("%s & x > y" % w, "%s &amp; x &gt; y" % w)))
inl = st.lists(frag, min_size=1, max_size=4).map(lambda l: [" ".join(a for a, b in l), " ".join(b for a, b in l)])
leaf = st.one_of(inl.map(lambda i: ["p", i]), inl.map(lambda i: ["p", i]), st.lists(inl, min_size=1, max_size=3).map(lambda l: ["ul", l]), st.lists(inl, min_size=1, max_size=3).map(lambda l: ["ol", l]), st.sampled_from(["x < y", "a  b", ": not", "> [!NOTE] no", "::: no", "<div markdown=\"1\">"]).map(lambda c: ["code", c]), inl.map(lambda i: ["h", i]), inl.map(lambda i: ["2p", i]))
aval = st.one_of(word, st.sampled_from(["a b", "x & y", "it's", "1.5", "a/b", "x=y", ".c", "#d", "{e", "a \"b\" c", "a > b", "x <b> y", "long " * 60 + "end", "&" * 90]))
attrs = st.fixed_dictionaries({"id": st.one_of(st.none(), st.sampled_from(["one", "two-b", "x_3"])), "cls": st.lists(st.sampled_from(["c1", "c-2", "Warn", "c_3"]), max_size=3, unique=True), "kv": st.dictionaries(st.sampled_from(["data-a", "title", "lang", "k"]), aval, max_size=2), "order": st.integers(0, 5)})


def blocks(ctx, depth):
    """ctx: 'top' (anything), 'quote' (quotes and callouts nest), 'html' (divs and HTML nest)"""
    ch = [leaf, leaf]
    if depth > 0:
        if ctx in ("top", "quote"):
            ch.append(st.tuples(st.just("callout"), st.sampled_from(ALIAS), st.sampled_from(["", "", "+", "-"]), st.one_of(st.none(), inl), st.integers(0, 2), st.deferred(lambda: blocks("quote", depth - 1))).map(list))
            ch.append(st.tuples(st.just("quote"), st.deferred(lambda: blocks("quote", depth - 1))).map(list))
            ch.append(st.tuples(st.just("item"), st.deferred(lambda: blocks("quote", depth - 1))).map(list))
        if ctx in ("top", "html"):
            ch.append(st.tuples(st.just("div"), st.integers(3, 6), st.integers(0, 6), st.sampled_from([None, None, "aside", "article", "section", "div", "my-box", "details", "figure", "x-note"]), attrs, st.deferred(lambda: blocks("html", depth - 1))).map(list))
            ch.append(st.tuples(st.just("html"), st.sampled_from(TAGS), st.sampled_from(["1", "1", "block", "0", "span"]), attrs, st.integers(0, 3), st.deferred(lambda: blocks("html", depth - 1))).map(list))
        if ctx == "top": ch.append(st.tuples(st.just("dl"), st.lists(st.tuples(inl, st.lists(inl, min_size=1, max_size=3)), min_size=1, max_size=3)).map(list))
    return st.lists(st.one_of(*ch), min_size=1, max_size=3)


def esc(s): return s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;")


def braces(a):
    p = (["#" + a["id"]] if a["id"] else []) + ["." + c for c in a["cls"]] + ["%s=%s" % (k, ('"%s"' if '"' not in v and i % 2 == 0 or "'" in v else "'%s'") % v) for i, (k, v) in enumerate(sorted(a["kv"].items()))]
    if a["order"] % 2: p = p[::-1]
    cl = a["cls"][::-1] if a["order"] % 2 else a["cls"]
    return "{" + " ".join(p) + "}", (" id=\"%s\"" % a["id"] if a["id"] else "") + (" class=\"%s\"" % " ".join(cl) if cl else "") + "".join(" %s=\"%s\"" % (k, esc(v)) for k, v in a["kv"].items())


def empty(a): return not (a["id"] or a["cls"] or a["kv"])


def fix(bs):
    """two lists in a row would be one: put a paragraph between blocks that would join"""
    out = []
    for b in bs:
        if out and b[0] in ("ul", "ol", "item") and out[-1][0] in ("ul", "ol", "item"): out.append(["p", ["between", "between"]])
        if out and b[0] in ("quote", "callout") and out[-1][0] in ("quote", "callout"): out.append(["p", ["between", "between"]])
        if out and b[0] == "dl" and out[-1][0] == "dl": continue
        out.append(b)
    return out


def src(bs):
    """lines of Markdown and the expected HTML"""
    L, H = [], []
    prev = None
    for b in fix(bs):
        # text may follow the end of a div or element at once
        if L and not (prev and (prev[0] == "div" and prev[2] == 2 or prev[0] == "html" and prev[4] == 2 and prev[2] in ("1", "block")) and b[0] in ("p", "2p", "h", "ul", "ol")): L.append("")
        prev = b
        k = b[0]
        if k == "p": L.append(b[1][0]); H.append("<p>%s</p>" % b[1][1])
        elif k == "2p": L += [b[1][0], "second"]; H.append("<p>%s second</p>" % b[1][1])
        elif k == "h": L.append("### " + b[1][0]); H.append("<h3>%s</h3>" % b[1][1])
        elif k == "ul": L += ["- " + i[0] for i in b[1]]; H.append("<ul>%s</ul>" % "".join("<li>%s</li>" % i[1] for i in b[1]))
        elif k == "ol": L += ["%d. %s" % (n + 1, i[0]) for n, i in enumerate(b[1])]; H.append("<ol>%s</ol>" % "".join("<li>%s</li>" % i[1] for i in b[1]))
        elif k == "code": L += ["```", b[1], "```"]; H.append("<pre><code>%s\n</code></pre>" % b[1].replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;"))
        elif k == "quote":
            l, h = src(b[1]); L += [("> " + x).rstrip() for x in l]; H.append("<blockquote>%s</blockquote>" % h)
        elif k == "item":
            l, h = src([["p", ["item", "item"]]] + b[1]); L += [("- " if n == 0 else "  " if x else "") + x for n, x in enumerate(l)]; H.append("<ul><li>%s</li></ul>" % h)
        elif k == "callout":
            (a, t), sign, title, style, inner = b[1], b[2], b[3], b[4], b[5]
            l, h = src(inner)
            a = [a.upper(), a, a.capitalize()][style]
            first = "[!%s]%s%s" % (a, sign, " " + title[0] if title else "")
            gap = [] if inner[0][0] in ("p", "2p") and style == 0 else [""]
            L += [("> " + x).rstrip() for x in [first] + gap + l]
            tt = title[1] if title else t
            if sign: H.append("<details class=\"callout callout-%s\"%s><summary>%s</summary><div class=\"callout-content\"><blockquote>%s</blockquote></div></details>" % (t, " open" if sign == "+" else "", tt, h))
            else: H.append("<div class=\"callout callout-%s\"><div class=\"callout-title\">%s</div><div class=\"callout-content\"><blockquote>%s</blockquote></div></div>" % (t, tt, h))
        elif k == "div":
            n, style, typ, a, inner = b[1:]
            if empty(a): a = dict(a, cls=["dflt"])
            l, h = src(inner)
            s, at = braces(a)
            if style % 3 == 0 and len(a["cls"]) == 1 and not a["id"] and not a["kv"]: s = a["cls"][0]
            L += [":" * n + " " + (">%s " % typ if typ else "") + s + (" " + ":" * n if style == 4 else "")] + ([""] if style == 5 else []) + l + ([""] if style == 5 else []) + [":" * (n if style != 6 else 3)]
            H.append("<%s%s>%s</%s>" % (typ or "div", at, h, typ or "div"))
        elif k == "html":
            tag, val, a, style, inner = b[1:]
            a = dict(a, kv={k: v for k, v in a["kv"].items() if ">" not in v})
            at = (" id=\"%s\"" % a["id"] if a["id"] else "") + (" class=\"%s\"" % " ".join(a["cls"]) if a["cls"] else "") + "".join(" %s=\"%s\"" % (k, esc(v)) for k, v in a["kv"].items())
            q = ["\"%s\"", "'%s'", "\"%s\"", "%s"][style] % val
            m = " markdown=" + q
            op = "<%s%s>" % (tag, m + at if style % 2 else at + m)
            if val == "span": inner = [["p", ["one *two* `three`", "one <em>two</em> <code>three</code>"]]]; L += [op + inner[0][1][0] + "</%s>" % tag]; H.append("<%s%s>%s</%s>" % (tag, at, inner[0][1][1], tag))
            elif val == "0": L += [op, "*not* this", "</%s>" % tag]; H.append("<%s%s markdown=\"0\">*not* this</%s>" % (tag, at, tag))
            else:
                l, h = src(inner)
                L += [op] + l + ["</%s>" % tag]; H.append("<%s%s>%s</%s>" % (tag, at, h, tag))
        elif k == "dl":
            h = ""
            for n, (t, ds) in enumerate(b[1]):
                L.append(t[0]); L += [": " + d[0] for d in ds]
                h += "<dt>%s</dt>" % t[1] + "".join("<dd>%s</dd>" % d[1] for d in ds)
            H.append("<dl>%s</dl>" % h)
    return L, "".join(H)


def tree(h):
    out, pre = [], 0
    for t in htm.tokens(h):
        if t[0] == "t":
            x = t[1] if pre else re.sub(r"\s+", " ", t[1])
            if x.strip(): out.append(x.strip("\n") if pre else x)
        else:
            if t[1] == "pre": pre += 1 if t[0] == "s" else -1
            if t[0] == "s": t = ("s", t[1], sorted((k, " ".join(v.split()) if k == "class" and v else v) for k, v in t[2].items()))
            out.append(t)
    res = []
    for x in out:
        if x == ("s", "dl", []) and res and res[-1] == ("e", "dl"): res.pop()   # each term may be a list of its own
        else: res.append(x.strip() if isinstance(x, str) else x)
    return res


def has(bs, k): return any(b[0] == k or (isinstance(b[-1], list) and b[0] in ("quote", "item", "callout", "div", "html") and has(b[-1], k)) for b in bs)


def t_tree(case, ctx):
    l, h = src(case["b"])
    n = case.get("n", 1)
    if n > 1: l, h = (l + ["", "Next", ""]) * n, (h + "<p>Next</p>") * n
    text = "Start\n\n" + "\n".join(l) + "\n\nEnd\n"
    want = "<p>Start</p>" + h + "<p>End</p>"
    if case["e"] == 1: text += "\n::: {.last}\n\nTail *x*\n\n::: >x-in {#in}\nInner\n"; want += "<div class=\"last\"><p>Tail <em>x</em></p><x-in id=\"in\"><p>Inner</p></x-in></div>"     # closed by the end of the document
    elif case["e"] == 2: text += "\n:::\n\nTail *x*\n"; want += "<p>:::</p><p>Tail <em>x</em></p>"                                                 # closes nothing
    got = ctx.w.conv(text, mode=4, enable_smart_typography=0, generate_header_ids=0, github_pre_lang=case["g"])
    a, b = tree(got), tree(want)
    if a != b:
        i = next((n for n, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation("containers do not hold their content; from %s instead of %s\n%s\n--- output\n%s\n--- expected\n%s" % (a[i:i + 3], b[i:i + 3], text, got, want))
    for k in ("callout", "div", "html", "dl"):
        if has(case["b"], k): ctx.label(k)
    ctx.nt(any(has(case["b"], k) for k in ("callout", "div", "html", "dl")))


def t_off(case, ctx):
    """switched off, or in modes without them, the syntax is plain text"""
    kind, w = case["k"], case["w"]
    text, opt = [("> [!NOTE] %s\n> x" % w, "enable_callouts"), ("::: %s\nx\n:::" % w, "enable_divs"), ("%s\n: x" % w, "enable_definition_lists"), ("<div markdown=\"1\">\n*%s*\n</div>" % w, "enable_markdown_in_html")][kind]
    t = "Start\n\n" + text + "\n\nEnd\n"
    want = ["<p>Start</p><blockquote><p>[!NOTE] %s x</p></blockquote><p>End</p>" % w, "<p>Start</p><p>::: %s x :::</p><p>End</p>" % w, "<p>Start</p><p>%s : x</p><p>End</p>" % w, "<p>Start</p><div markdown=\"1\">*%s*</div><p>End</p>" % w][kind]
    for o in [{"mode": 4, opt: 0}] + [{"mode": m} for m in (0, 1)] + ([{"mode": 2}, {"mode": 3}] if kind == 1 else []):
        got = ctx.w.conv(t, unsafe=1, enable_smart_typography=0, hardbreaks=0, **o)
        if tree(got) != tree(want): raise Violation("%s is not text with %s\n%s\n--- output\n%s" % (text, o, t, got))
    ctx.nt(True)


BRK = "<div class=\"mkpagebreak manualbreak\" title=\"Page break created by marker\" data-description=\"PAGE (Marker)\" style=\"page-break-after:always\"><span style=\"display:none\">&nbsp;</span></div>"
MARK = [("<!--BREAK-->", lambda n: BRK), ("{::pagebreak /}", lambda n: BRK), ("<!--PAUSE:%d-->", lambda n: "<div class=\"autoscroll-pause\" data-pause=\"%d\"></div>" % n)]
NOT = ["<!--BREAKS-->", "<!--PAUSE:x-->", "<!--break-->", "<!-- BREAK -->"]


def t_mark(case, ctx):
    L, H = ["Start"], ["<p>Start</p>"]
    for k, n, i in case["m"]:
        if k < 3:
            m, f = MARK[k]
            L.append(m.replace("%d", str(n))); H.append(f(n))
        elif k == 3: L.append(NOT[n % len(NOT)]); H.append(NOT[n % len(NOT)])
        elif k == 4: L.append("- %s\n%s^%s\n- second" % (i[0], " " * (n % 3), " " * (n % 2))); H.append("<ul><li>%s</li></ul><p>\u200b</p><ul><li>second</li></ul>" % i[1])
        elif k == 5: L.append("a `%s` b" % MARK[n % 2][0]); H.append("<p>a <code>%s</code> b</p>" % MARK[n % 2][0].replace("<", "&lt;").replace(">", "&gt;"))
        elif k == 6: L.append("```\n%s\n^\n```" % MARK[n % 3][0]); H.append("<pre><code>%s\n^\n</code></pre>" % MARK[n % 3][0].replace("<", "&lt;").replace(">", "&gt;"))
        L.append(i[0]); H.append("<p>%s</p>" % i[1])
    t = "\n\n".join(L) + "\n"
    got = ctx.w.conv(t, mode=4, enable_smart_typography=0)
    clean = lambda h: tree(h.replace("<p>\u200b</p>", "").replace("\u200b", ""))
    if clean(got) != clean("".join(H)): raise Violation("markers:\n%s\n--- output\n%s\n--- expected\n%s" % (t, got, "".join(H)))
    if any(k == 4 for k, _, _ in case["m"]) and got.count("<ul>") != 2 * sum(k == 4 for k, _, _ in case["m"]): raise Violation("an end of block marker does not separate the lists\n%s\n---\n%s" % (t, got))
    ctx.nt(True)


PROPS = [Prop("tree", lambda: st.fixed_dictionaries({"b": blocks("top", 3), "g": st.integers(0, 1), "e": st.sampled_from([0, 0, 1, 2]), "n": st.sampled_from([1] * 12 + [2, 3, 12, 40])}), t_tree, 5000, 120000), Prop("off", lambda: st.fixed_dictionaries({"k": st.integers(0, 3), "w": word}), t_off, 60, 60),
         Prop("markers", lambda: st.fixed_dictionaries({"m": st.lists(st.tuples(st.integers(0, 6), st.integers(0, 99999), inl), min_size=1, max_size=5)}), t_mark, 1500, 30000)]
