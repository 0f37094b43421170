"""C17 - standalone output is one complete HTML document around exactly the fragment."""
import html as H
import os, re, shutil
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, cli

BINS = ["worker", "apex"]
RULE = ("Fragments and generated documents are wrapped with generated titles, languages, style sheets (linked and embedded, existing and missing), header and footer HTML and scripts, given as arguments, options, metadata or on the command line; the result must be one document with exactly these parts, each in its place and escaped where it is text, around exactly the body "
        "that the same text gives as a fragment. Non-trivial: at least three parts given.")
ASSUMPTIONS = ["names of style sheets contain no comma (the program splits at commas)"]
TITLES = ["Plain", "A & B", "x < y > z", 'Say "hi"', "it's", "AT&amp;T", "</title><b>", "Ünï 中", "T" * 900, "%s %d %n", "a\tb", "Document", "100% & more"]
CSS = ["a.css", "b c.css", "x&y.css", "http://e.com/s.css?a=1&b=2", "d/e.css", "q'.css", "%s.css", "l" * 200 + ".css", 'q".css']
HEAD = ["<meta name=\"k\" content=\"v\">", "<script>if (a<b) x();</script>", "<link rel=\"x\" href=\"y\">", "<!-- h -->", "<style>p > a { }</style>", "<meta %s %d>"]
LANG = ["en", "de", "fr-CA", 'x"y', "a&b"]
SCRIPTS = ["<script>go()</script>", "<script src=\"s.js\"></script>", "<script>if (a < b && c) { }</script>", "<script>%s</script>"]
BODY = ["<p>x</p>\n", "", "text", "<p>a</p>\n</body>\n</html>\n", "<p>a</p></body></html>", "</body></html><p>more</p>", "<pre>\n\n\n\nx</pre>\n", "<p>%s %d</p>", "<p>é中</p>\n" * 300, "<p><title>t</title></p>", "</html>", "x</body>y</html>", "<head>\n", "<code>&lt;/body&gt;&lt;/html&gt;</code>"]


def esc(s):
    return re.sub(r'&(?![#A-Za-z0-9]{1,33};)|[<>"]', lambda m: {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;"}[m.group()], s)


def parts(doc):
    m = re.match(r'(?s)\s*<!DOCTYPE html>\s*<html lang="([^"]*)">\s*<head>(.*?)</head>\s*<body[^>]*>(.*)</body>\s*</html>\s*\Z', doc)
    if not m: raise Violation("not one complete document: %r … %r" % (doc[:400], doc[-300:]))
    return m.groups()


def judge(doc, title, lang, css, header, tail, content, embedded=None):
    """css: names expected as links, in order; embedded: name -> text expected in a style element"""
    l, head, body = parts(doc)
    if l != esc(lang): raise Violation("language %r, expected %r" % (l, esc(lang)))
    if re.findall(r"(?s)<title>(.*?)</title>", head.replace(header or "\0", "")) != [esc(title)]: raise Violation("title of %r in %r" % (title, head[:1500]))
    if not re.search(r"(?i)<meta charset=\"utf-8\"", head): raise Violation("no character set: %r" % head[:300])
    if header and head.count(header) != 1: raise Violation("header %r is not once in the head %r" % (header, head[:2500]))
    links = re.findall(r'<link rel="stylesheet" href="([^"]*)">', head.replace(header or "\0", ""))
    emb = embedded or {}
    want = [esc(c) for c in css if c not in emb]
    if links != want: raise Violation("style sheets %r, expected %r" % (links, want))
    pos = 0
    for c in css:
        if c in emb:
            m = re.compile(r"(?s)<style>\n" + re.escape(emb[c]) + r"\n\s*</style>").search(head, pos)
            if not m: raise Violation("style sheet %r is not embedded in order in %r" % (c, head[:2500]))
            pos = m.end()
    if not css and not re.search(r"<style>", head): raise Violation("no default style sheet")
    if css and "max-width: 800px" in head: raise Violation("the default style sheet is there besides %r" % css)
    exp = content.strip() + "".join(tail)
    if re.sub(r"\s+", "", body) != re.sub(r"\s+", "", exp) or content.strip("\n") not in body.replace("\r", "\r"):
        raise Violation("body %r…%r, expected %r…%r" % (body[:600], body[-300:], exp[:600], exp[-300:]))
    i = 0
    for t in tail:
        i = body.find(t, i)
        if i < 0: raise Violation("%r is not at the end of the body, in order: %r" % (t, body[-600:]))
        i += len(t)


wrap_s = st.fixed_dictionaries({"c": st.lists(st.sampled_from(BODY), min_size=1, max_size=3).map("".join), "t": st.one_of(st.none(), st.sampled_from(TITLES), st.text("ab<>&\"' %", max_size=12)), "l": st.one_of(st.none(), st.sampled_from(LANG)), "h": st.one_of(st.none(), st.sampled_from(HEAD)),
                                "f": st.one_of(st.none(), st.sampled_from(HEAD)), "css": st.lists(st.sampled_from(CSS), max_size=4)})


def strip_end(c):
    return re.sub(r"</body>\s*</html>\s*\Z", "", c)


def t_wrap(case, ctx):
    n = lambda x: "~" if x is None else x
    r = ctx.w.call("wrap", case["c"], n(case["t"]), n(case["h"]), n(case["f"]), n(case["l"]), *case["css"])[0].decode("utf-8", "surrogateescape")
    if sum(x is not None for x in (case["t"], case["l"], case["h"], case["f"])) + len(case["css"]) > 2: ctx.nt(repr(case)[:300])
    try: judge(r, "Document" if case["t"] is None else case["t"], case["l"] or "en", case["css"], case["h"], [case["f"]] if case["f"] else [], strip_end(case["c"]))
    except Violation as e: raise Violation("%s\ncase %r" % (e, case))


docs = st.one_of(gens.sdoc, st.lists(gens.block, min_size=1, max_size=5).map("\n".join))
conv_s = st.fixed_dictionaries({"t": docs, "mode": st.sampled_from([2, 3, 4, 4, 4]), "title": st.one_of(st.none(), st.sampled_from(TITLES[:8])), "h1": st.one_of(st.none(), st.sampled_from(["Top", "A & B", "A *b* `c`", "1 < 2"])), "css": st.lists(st.sampled_from(CSS[:7]), max_size=3, unique=True), "embed": st.booleans(),
                                "exist": st.lists(st.sampled_from(CSS[:7]), max_size=4, unique=True), "meta": st.fixed_dictionaries({}, optional={"css": st.sampled_from(["m.css", "n o.css"]), "html header": st.sampled_from(HEAD[:3]), "html footer": st.sampled_from(["<footer>f</footer>", "<script>foot()</script>"]), "language": st.sampled_from(["de", "fr"])}),
                                "scr": st.lists(st.sampled_from(SCRIPTS), max_size=2)})


def t_conv(case, ctx):
    d = os.path.join(ctx.scratch, "c17")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    meta = case["meta"]
    body = re.sub(r"(?i)<!--\s*|</?(html|head|body|title|h1)\b", "", case["t"].replace("\0", ""))
    if case["h1"]: body = "# %s\n\n" % case["h1"] + body
    src = "---\nx: y\n" + "".join("%s: %s\n" % (k, v) for k, v in meta.items()) + "---\n\nzqstart.\n\n" + body
    emb = {}
    names = case["css"] or ([meta["css"]] if "css" in meta else [])
    for c in case["exist"] + [x for x in names if x.endswith(("m.css", "o.css"))]:
        if "//" in c: continue
        text = "/* %s */\np > a { x: \"y\" }\n" % c * 3
        cli.put(os.path.join(d, c), text)
        if c in names and case["embed"]: emb[c] = text
    o = dict(unsafe=1, base_directory=d, title_from_h1=1, enable_smart_typography=0, generate_header_ids=1)
    lines = "".join("css=%s\n" % c for c in case["css"]) + "".join("script=%s\n" % s for s in case["scr"]) + ("document_title=%s\n" % case["title"] if case["title"] else "") + "embed_stylesheet=%d\n" % case["embed"]
    base = "mode=%d\n" % case["mode"] + "".join("%s=%s\n" % kv for kv in o.items())
    frag = ctx.w.call("conv", base, src)[0].decode("utf-8", "surrogateescape")
    snip = ctx.w.call("conv", base + lines, src)[0].decode("utf-8", "surrogateescape")
    doc = ctx.w.call("conv", base + lines + "standalone=1\n", src)[0].decode("utf-8", "surrogateescape")
    if len(meta) + len(case["css"]) + len(case["scr"]) > 2: ctx.nt(src[:300])
    title = case["title"]
    if not title:
        m = re.search(r"(?s)<h1[^>]*>(.*?)</h1>", frag)
        title = re.sub(r"(?s)<[^>]*>", "", m.group(1)).strip() if m else ""
    try:
        if not title: title = re.search(r"(?s)<title>(.*?)</title>", doc).group(1)
        if title == "" : raise Violation("empty title")
        judge(doc, title, meta.get("language", "en"), names, meta.get("html header"), ([meta["html footer"]] if "html footer" in meta else []) + case["scr"], frag, emb)
        if snip.rstrip("\n") != (frag.rstrip("\n") + "\n" + "\n".join(case["scr"])).strip("\n") and re.sub(r"\s+", "", snip) != re.sub(r"\s+", "", frag + "".join(case["scr"])): raise Violation("fragment with scripts %r" % snip[-500:])
    except Violation as e: raise Violation("%s\nsource %r\n%r" % (e, src[:1500], {k: v for k, v in case.items() if k != "t"}))


cli_s = st.fixed_dictionaries({"title": st.one_of(st.none(), st.sampled_from(TITLES[:7])), "mt": st.one_of(st.none(), st.sampled_from(["Meta T", "Meta & <T>"])), "css": st.lists(st.lists(st.sampled_from(CSS[:5]), min_size=1, max_size=2, unique=True), max_size=3), "embed": st.booleans(),
                               "scr": st.lists(st.sampled_from(["go.js", "http://e.com/x.js", "a.js, b.js", "mermaid"]), max_size=2), "s": st.booleans(), "b": st.lists(st.sampled_from(["para *x*", "## H", "- a\n- b", "```\n</body></html>\n```", "| a | b |\n|---|---|\n| c | d |"]), min_size=1, max_size=4), "pretty": st.booleans(), "out": st.booleans()})


def t_cli(case, ctx):
    d = os.path.join(ctx.scratch, "c17cli")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    flat, emb = [], {}
    for g in case["css"]:
        for c in g:
            if c in flat: continue
            flat.append(c)
    groups, seen = [], set()
    for g in case["css"]:
        g = [c for c in g if c not in seen]
        seen.update(g)
        if g: groups.append(g)
    for c in flat[::2]:
        if "//" in c: continue
        cli.put(os.path.join(d, c), "p { c: %d }\n" % len(c))
        if case["embed"]: emb[c] = "p { c: %d }\n" % len(c)
    src = ("---\ntitle: %s\n---\n\n" % case["mt"] if case["mt"] else "") + "\n\n".join(case["b"]) + "\n"
    args = [x for g in groups for x in (["--css", ", ".join(g)] if len(g) > 1 else ["--style", g[0]])]
    for s in case["scr"]: args += ["--script", s]
    if case["title"]: args += ["--title", case["title"]]
    if case["embed"]: args += ["--embed-css"]
    if case["s"] or groups: args += ["-s"] if case["s"] else []
    scr = ['<script src="https://cdn.jsdelivr.net/npm/mermaid@10/dist/mermaid.min.js"></script>' if x == "mermaid" else '<script src="%s"></script>' % x for s in case["scr"] for x in s.split(", ")]
    rc, frag, err = cli.run(ctx, [], src, cwd=d)
    if case["out"]:
        rc2, o, err = cli.run(ctx, args + ["-o", "out.html"], src, cwd=d)
        doc = open(os.path.join(d, "out.html"), encoding="utf-8", newline="").read()
        if o: raise Violation("output besides -o: %r" % o)
    else: rc2, doc, err = cli.run(ctx, args, src, cwd=d)
    if rc or rc2: raise Violation("exit code %d %d: %s" % (rc, rc2, err))
    if len(args) > 3: ctx.nt(repr(args))
    try:
        if case["s"] or groups: judge(doc, case["title"] or case["mt"] or "Document", "en", flat, None, scr, frag, emb)
        elif re.sub(r"\s+", "", doc) != re.sub(r"\s+", "", frag + "".join(scr)): raise Violation("fragment %r, expected %r and %r" % (doc, frag, scr))
    except Violation as e: raise Violation("%s\narguments %r\nsource %r" % (e, args, src))


PROPS = [Prop("wrap", lambda: wrap_s, t_wrap, 4000, 100000), Prop("documents", lambda: conv_s, t_conv, 3000, 80000), Prop("program", lambda: cli_s, t_cli, 600, 15000)]
