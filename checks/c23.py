"""C23 - raw HTML reaches the output unchanged when it is allowed, and never when it is not."""
import re
from html.parser import HTMLParser
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens

BINS = ["worker"]
RULE = ("HTML (scripts, event handlers, unknown and unfinished tags, comments, processing instructions, declarations) and dangerous links (javascript and the like, also spelled with entities and capitals, by reference and as autolinks) are put at "
        "every place of a document where text, attributes, titles or names can stand; the output with unsafe off, in all modes, must parse without any of them. With unsafe on, blocks of HTML come out byte for byte. Documents without HTML "
        "are the same either way. Non-trivial: at least one injection, block, or several blocks of text.")
ASSUMPTIONS = ["attribute lists ({: onclick=...}) are no raw HTML, and Liquid tags are passed on for Liquid to process", "syntaxes that Apex itself turns into HTML before parsing lose their elements in safe mode, which is no leak"]
INJ = ["<script>evil()</script>", "<img src=x onerror=evil()>", "<xq-evil>", "<xq-evil a=\"1\">x</xq-evil>", "<!-- xq-evil -->", "<iframe src=\"evil\"></iframe>", "<b onclick='evil()'>x</b>", "<?xq-evil?>", "<!DOCTYPE evil>", "<![CDATA[evil]]>",
       "[x](javascript:evil())", "[x](vbscript:evil())", "![x](javascript:evil())", "<javascript:evil()>", "[x](JaVaScRiPt:evil())", "[x](data:text/html,evil)", "[x](file:///evil)", "<svg/onload=evil()>", "[x][evil]", "[x](<javascript:evil()>)", "[x](&#106;avascript:evil())"]
PLACES = ["%s", "a %s b", "# %s", "# a %s", "- %s", "> %s", "1. a\n   %s", "| a | b |\n|---|---|\n| %s | c |", "| %s | b |\n|---|---|\n| d | c |", "| a | b |\n|---|---|\n| d | c |\n[%s]", "x[^1]\n\n[^1]: n %s", "x[^n %s z]", "x^[n %s z]", "term\n: def %s", "term %s\n: def", "*[AB]: %s\n\nAB", "{++%s++}", "{>>%s<<}", "{==%s==}{>>c<<}", "{~~%s~>b~~}", "==%s==", "++%s++", "x^%s", "[%s](u)", "![%s](u)", "![a](u \"%s\")", "[a](u \"%s\")", "[a %s]{.c}", "x\n{: title=\"%s\"}", "![a](u title=\"%s\")", "![a](u \"%s\" width=3)", "::: note\n%s\n:::", "::: {.x title=\"%s\"}\ny\n:::", "<div markdown=\"1\">\n%s\n</div>", "<div markdown=\"1\" %s>\nx\n</div>", "> [!NOTE] %s\n> x", "> [!NOTE]\n> %s", "[[%s]]", "[[a|%s]]", "$%s$", "$$%s$$", "\\(%s\\)", "`%s`", "```\n%s\n```", "```%s\nx\n```", "    %s", "*%s*", "**%s**", "~~%s~~", "(!%s)", "{i: %s}", "[term %s]{^}", ":%s:", "a. %s", "#tag%s", "<!--TOC-->\n\n# %s", "[%%title]\n%s", "/x/%s", "<<[%s]", "{{%s}}", "| %s\n|---|\n| a", "```table\na,%s\nb,c\n```", "<!--TABLE-->\na,%s\nb,c\n\n", "{.c%s}\nx", "# h {#%s}", "# h [%s]", "<details>\n%s\n</details>", "+++\n%s", "[a]: %s\n\n[a]", "[>ab]: %s\n\n[>ab]", "[>(ab) %s]", "Text %s{.x}", "- [ ] %s", "x <u>%s</u>", "<%s>", "\\%s"]


class P(HTMLParser):
    def __init__(s):
        super().__init__()
        s.bad = []

    def handle_starttag(s, t, a):
        if "evil" in t or t in ("script", "iframe", "svg"): s.bad.append(("tag", t, a))
        for k, v in a:
            if k.startswith("on") and (len(a) < 9): s.bad.append(("attr", t, k, v))
            if k in ("href", "src") and re.match(r"(?i)[\s\x00-\x20]*(javascript|vbscript|file|data:text)", v or "") and "evil" in (v or ""): s.bad.append(("url", t, k, v))

    def handle_comment(s, c):
        if "evil" in c: s.bad.append(("comment", c))

    def handle_pi(s, c): s.bad.append(("pi", c))
    def handle_decl(s, c): s.bad.append(("decl", c))
    def unknown_decl(s, c): s.bad.append(("cdata", c))


def check(case, ctx):
    t = "\n\n".join(p.replace("%s", i).replace("%%", "%") for p, i in case["p"]) + "\n\n[evil]: javascript:evil()\n"
    if case.get("meta"): t = "---\ntitle: T\n---\n\n" + t
    o = dict(case["o"])
    h = ctx.w.conv(t, mode=case["m"], unsafe=0, **o)
    p = P()
    p.feed(h); p.close()
    if p.bad: raise Violation("HTML of the document in safe output (mode %d, %s): %s\n%s\n---\n%s" % (case["m"], o, p.bad[:3], t, h))
    ctx.nt(True)


def opts(): return st.fixed_dictionaries({}, optional={"enable_sup_sub": st.integers(0, 1), "critic_mode": st.integers(0, 2), "enable_critic_markup": st.integers(0, 1), "enable_indices": st.integers(0, 1), "pretty": st.integers(0, 1), "enable_smart_typography": st.integers(0, 1), "enable_autolink": st.integers(0, 1), "enable_wiki_links": st.integers(0, 1), "enable_markdown_in_html": st.integers(0, 1), "enable_hashtags": st.integers(0, 1), "proofreader_mode": st.integers(0, 1)})


BL = ["<div class=\"%s\">\n%s text\n</div>", "<section id='%s'>\n<p>%s &amp; more</p>\n</section>", "<script>\nif (a < b && c) { f(\"%s\"); } // *%s* _x_ [y](z)\n</script>", "<style>\n.%s > a { color: red; } /* **%s** */\n</style>", "<!-- %s *not* [a](b) %s -->",
      "<x-tag data-a=\"%s\" data-b='%s'>\ntext\n</x-tag>", "<table class=\"%s\"><tr><td>%s</td></tr></table>", "<pre>\n  %s  *x*\n\n   %s\n</pre>", "<hr class=\"%s  x\" data-x=%s>", "<?php echo \"%s\"; %s ?>", "<details><summary>%s</summary>%s</details>", "<form action=\"/%s\">\n<input name=\"%s\" disabled>\n</form>",
      "<video src=\"%s.mp4\" controls>%s</video>", "<iframe src=\"http://x.y/%s?a=1&amp;b=%s\"></iframe>", "<object data=\"%s\">\n%s\n</object>", "<script type=\"text/x\">\n%s\n\n# not a heading\n\n- %s\n</script>", "<!--\n%s\n\n# not a heading\n\n%s\n-->"]
IN = ["<b>%s</b>", "<span class=\"%s\">", "</span>", "<br>", "<br/>", "<i title='%s'>", "<kbd>%s</kbd>", "<x-y z=\"%s\"/>", "<!-- %s -->", "<a name=\"%s\"></a>", "<sup>%s</sup>", "<u data-a='%s' data-b>", "<input type=\"checkbox\" checked>"]
name = st.text("abcdefghij", min_size=4, max_size=7)


def check_verbatim(case, ctx):
    out, want = ["Start"], []
    for k, b, x, y in case["p"]:
        if k:
            s = BL[b % len(BL)] % (x, y)
            want.append(s)
        else:
            i = IN[b % len(IN)]
            s = "w %s and *%s*" % (i.replace("%s", x), y)
            want.append("w %s and <em>%s</em>" % (i.replace("%s", x), y))
        out += [s, "end " + x]
    t = "\n\n".join(out) + "\n"
    h = ctx.w.conv(t, mode=case["m"], unsafe=1, enable_smart_typography=case["s"], generate_header_ids=case["i"])
    pos = 0
    for w in want:
        n = h.find(w, pos)
        if n < 0: raise Violation("HTML is not passed on unchanged (mode %d): %s\n%s\n---\n%s" % (case["m"], w, t, h))
        pos = n + len(w)
    ctx.nt(len(want) > 1)


TX = ["Plain *text* with **marks** and `code`", "# Heading", "- item\n- other\n\n  para", "> quote", "1. one\n2. two", "| a | b |\n|---|---|\n| 1 | *2* |", "[link](http://x.y/z \"t\") and ![img](/i.png)", "[ref]", "a & b &amp; c &copy; > e", "```c\nint a < b;\n```", "w\n\n    code & x > y", "http://x.y/z and me@e.com", "line  \nbreak\\\nmore", "---", "![img](data:image/png;base64,AAAA)", "[a](/rel#frag) [b](#x) [c](mailto:me@e.com) [d](ftp://x.y/z) [e](?q=1)", "\\<b> \\*x\\* `<script>`"]


def check_plain(case, ctx):
    t = "Start\n\n" + "\n\n".join(case["t"]) + "\n\n[ref]: /u 'title'\n"
    a, b = (ctx.w.conv(t, mode=case["m"], unsafe=u, enable_smart_typography=case["s"]) for u in (0, 1))
    if a != b: raise Violation("safe output differs where there is no HTML (mode %d):\n%s\n--- safe\n%s\n--- unsafe\n%s" % (case["m"], t, a, b))
    ctx.nt(len(case["t"]) > 1)


PROPS = [Prop("safe", lambda: st.fixed_dictionaries({"p": st.lists(st.tuples(st.sampled_from(PLACES), st.sampled_from(INJ)), min_size=1, max_size=3), "m": st.integers(0, 4), "o": opts(), "meta": st.integers(0, 1)}), check, 8000, 200000),
         Prop("verbatim", lambda: st.fixed_dictionaries({"p": st.lists(st.tuples(st.integers(0, 1), st.integers(0, 200), name, name), min_size=1, max_size=4), "m": st.integers(0, 4), "s": st.integers(0, 1), "i": st.integers(0, 1)}), check_verbatim, 3000, 60000),
         Prop("plain", lambda: st.fixed_dictionaries({"t": st.lists(st.sampled_from(TX), min_size=1, max_size=6), "m": st.integers(0, 4), "s": st.integers(0, 1)}), check_plain, 2000, 40000)]
