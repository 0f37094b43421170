"""C13 - footnotes: every note once, numbered by first reference, linked both ways."""
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, htm

BINS = ["worker"]
RULE = ("Documents of paragraphs, lists, quotes, tables and headings with reference, Kramdown and MultiMarkdown inline footnotes, repeated, undefined and unreferenced labels, multi-block definitions before and after their use; the footnote section, numbering and links of the HTML are "
        "compared with a model. The inline-footnote rewriting is compared with a constructive model over notes, code regions and near misses. Non-trivial: at least one resolved note.")
ASSUMPTIONS = ["notes do not refer to other notes"]

# ---- text rewriting
plain = st.sampled_from(["alpha ", "b", " c.", "\n", "\n\n", "x^2^ ", "[link](u) ", "[^ref]", "[^fn2]", "a^b ", "[ ^x] ", "(^[", ")", "é", "] ", "[x] "]).filter(lambda s: s not in ("(^[", "] "))
note_w = st.lists(st.sampled_from(["note", "two", "*em*", "[l](u)", "a b", "é", "x[y]z", "1"]), min_size=1, max_size=4).map(" ".join)
piece = st.one_of(st.tuples(st.just("p"), plain), st.tuples(st.just("p"), plain), st.tuples(st.just("k"), note_w), st.tuples(st.just("k"), note_w),
                  st.tuples(st.just("m"), st.lists(gens.word, min_size=2, max_size=4).map(" ".join)),
                  st.tuples(st.just("p"), st.sampled_from(["`^[no]`", "`a [^b c] d`", "\n```\n^[no]\n[^a b]\n```\n", "\n````\n^[no]\n````\n", "\n~~~\n^[no] [^a b]\n~~~\n", "\n`````c\n[^x y]\n`````\n"])))


def t_text(case, ctx):
    src = "".join({"p": c, "k": "^[" + c + "]", "m": "[^" + c + "]"}[k] for k, c in case)
    n0 = max([int(x) for x in re.findall(r"\[\^fn(\d+)", src)] or [0])
    out, defs = "", ""
    for k, c in case:
        if k == "p": out += c
        else:
            n0 += 1
            out += "[^fn%d]" % n0; defs += "[^fn%d]: %s\n" % (n0, c)
    exp = out + ("\n\n" + defs if defs else "")
    got = ctx.w.t2t("apex_process_inline_footnotes", src)
    if defs: ctx.nt(src)
    if got != exp: raise Violation("inline footnotes of %r\n%r\n---\n%r" % (src, got, exp))


# ---- documents
LABELS = ["1", "2", "note", "a-b", "X", "fn1", "fn2", "long-label-of-a-note"]
it = st.one_of(st.tuples(st.just("w"), gens.word), st.tuples(st.just("w"), gens.word), st.tuples(st.just("r"), st.sampled_from(LABELS)),
               st.tuples(st.just("k"), st.lists(gens.uword, min_size=1, max_size=3).map(" ".join)), st.tuples(st.just("m"), st.lists(gens.uword, min_size=2, max_size=3).map(" ".join)))
line = st.lists(it, min_size=1, max_size=5)
blk = st.one_of(st.tuples(st.just("para"), line), st.tuples(st.just("para"), line), st.tuples(st.just("quote"), line), st.tuples(st.just("head"), line), st.tuples(st.just("list"), st.lists(line, min_size=1, max_size=3)),
                st.tuples(st.just("table"), st.lists(line, min_size=4, max_size=4)), st.tuples(st.just("code"), gens.word), st.tuples(st.just("strong"), line))
defb = st.lists(st.one_of(st.lists(gens.uword, min_size=1, max_size=3).map(lambda l: ["p", " ".join(l)]), gens.uword.map(lambda w: ["code", w]), st.lists(gens.uword, min_size=1, max_size=2).map(lambda l: ["ul", l])), max_size=2)
docs = st.fixed_dictionaries({
    "b": st.lists(blk, min_size=1, max_size=6), "mode": st.sampled_from([2, 3, 4, 4]), "rnd": st.booleans(),
    "defs": st.lists(st.tuples(st.sampled_from(LABELS), st.lists(gens.uword, min_size=1, max_size=3).map(" ".join), defb, st.integers(0, 6)), max_size=6, unique_by=lambda d: d[0].lower()),
    "opt": st.sampled_from([{}, {}, {"standalone": 1}, {"page_break_before_footnotes": 1}, {"enable_file_includes": 0}])})


def src_line(l):
    out = ""
    for k, c in l:
        if k == "w": out += (" " if out else "") + c
        else: out += {"r": "[^%s]", "k": "^[%s]", "m": "[^%s]"}[k] % c
    return out if l[0][0] == "w" else "Start" + out


def t_doc(case, ctx):
    defs = {d[0].lower(): (d[1], d[2]) for d in case["defs"]}
    order, notes, refs = [], {}, []
    vis = []

    def walk(l):
        words = [] if l[0][0] == "w" else ["Start"]
        for k, c in l:
            if k == "w": words.append(c); continue
            if k == "r":
                key = c.lower()
                if key not in defs: words.append("[^%s]" % c); continue
                body = [defs[key][0]] + [x[1] if x[0] != "ul" else " ".join(x[1]) for x in defs[key][1]]
                notes[key] = " ".join(body).split()
            else:
                key = ("inl", len(refs)); notes[key] = c.split()
            if key not in order: order.append(key)
            refs.append(key)
            words.append("\u27e6%d\u27e7" % (order.index(key) + 1))
        vis.extend(words)
    parts = []
    for k, c in case["b"]:
        if k == "para": parts.append(src_line(c)); walk(c)
        elif k == "strong": parts.append("**" + src_line(c) + "**"); walk(c)
        elif k == "quote": parts.append("> " + src_line(c)); walk(c)
        elif k == "head": parts.append("## " + src_line(c) + " end"); walk(c); vis.append("end")
        elif k == "list":
            parts.append("\n".join("- " + src_line(l) for l in c))
            for l in c: walk(l)
        elif k == "table":
            parts.append("| %s | %s |\n|---|---|\n| %s | %s |\n| x | y |" % tuple(src_line(l) for l in c))
            for l in c: walk(l)
            vis.extend(["x", "y"])
        else: parts.append("```\n%s ^[no] [^1] [^a b]\n```" % c); vis.extend([c, "^[no]", "[^1]", "[^a", "b]"])
    for lab, first, more, at in case["defs"]:
        t = "[^%s]: %s" % (lab, first)
        for x in more:
            t += "\n\n" + {"p": lambda: "    " + x[1], "code": lambda: "    ```\n    %s\n    ```" % x[1], "ul": lambda: "\n".join("    - " + w for w in x[1])}[x[0]]()
        parts.insert(min(at, len(parts)), t)
    src = "Intro\n\n" + "\n\n".join(parts) + "\n"
    if case["mode"] == 4: src = src.replace("Intro\n", "# Doc\n", 1)
    else: src = "\n" + src
    o = dict(case["opt"]); o["random_footnote_ids"] = int(case["rnd"])
    html = ctx.w.conv(src, case["mode"], **o)
    if order: ctx.nt(src)
    ctx.label("notes%d" % min(len(order), 5))
    bad = lambda s: Violation("%s\nmode %d %s\n%s\n---\n%s" % (s, case["mode"], o, src, html))
    sec = html.find('<section class="footnotes"')
    if (sec >= 0) != bool(order): raise bad("footnote section %s" % ("missing" if order else "without notes"))
    main = html if sec < 0 else html[:sec]
    body = main.split("<body>", 1)[-1].replace("&nbsp;", "").replace("</body>", "").replace("</html>", "")
    seen = []

    def rep(m):
        seen.append((m.group(1), m.group(2), m.group(3)))
        return " \u27e6%s\u27e7 " % m.group(3)
    body = re.sub(r'<sup class="footnote-ref"><a href="#([^"]*)" id="([^"]*)" data-footnote-ref>(\d+)</a></sup>', rep, body)
    got = htm.words(re.sub(r"([.\]])", r"\1", body))
    exp = ["Doc" if case["mode"] == 4 else "Intro"] + vis
    if "".join(got) != "".join(exp): raise bad("text of the document is %r instead of %r" % (got, exp))
    if [int(s[2]) for s in seen] != [order.index(k) + 1 for k in refs]: raise bad("numbers %r instead of %r" % ([s[2] for s in seen], [order.index(k) + 1 for k in refs]))
    ids = [s[1] for s in seen]
    if len(set(ids)) != len(ids): raise bad("ids of references are not unique: %r" % ids)
    lis = re.findall(r'(?s)<li id="([^"]*)">\n(.*?)\n</li>(?=\n<li id="|\n</ol>\n</section>)', html[sec:]) if sec >= 0 else []
    if len(lis) != len(order): raise bad("%d notes instead of %d" % (len(lis), len(order)))
    for i, (key, (lid, text)) in enumerate(zip(order, lis)):
        back = re.findall(r'<a href="#([^"]*)" class="footnote-backref"', text)
        text = re.sub(r'(?s)<a href="#[^"]*" class="footnote-backref".*?</a>(?!</sup>)', "", text)
        if htm.words(text) != notes[key]: raise bad("note %d reads %r instead of %r" % (i + 1, htm.words(text), notes[key]))
        mine = [s for s in seen if int(s[2]) == i + 1]
        if any(s[0] != lid for s in mine): raise bad("reference %d links to %r, the note is %r" % (i + 1, [s[0] for s in mine], lid))
        if back != [s[1] for s in mine]: raise bad("backlinks %r of note %d, references %r" % (back, i + 1, [s[1] for s in mine]))
    if case["rnd"] and seen:
        h = {re.match(r"fn-([0-9a-f]{1,8})-", s[0]).group(1) if re.match(r"fn-([0-9a-f]{1,8})-", s[0]) else None for s in seen}
        if len(h) != 1 or None in h: raise bad("ids without a common document prefix: %r" % h)


def t_off(case, ctx):
    """with footnotes off, the syntax is plain text"""
    src = "# Doc\n\nalpha[^1] beta\n\n" + " ".join(case) + "\n"
    html = ctx.w.conv(src, 4, enable_footnotes=0, enable_sup_sub=0)
    ctx.nt(src)
    if "footnote" in html or "[^1]" not in html: raise Violation("footnotes are off: %s" % html)


PROPS = [Prop("text", lambda: st.lists(piece, max_size=14), t_text, 5000, 50000), Prop("doc", lambda: docs, t_doc, 3000, 30000), Prop("off", lambda: st.lists(gens.word, min_size=1, max_size=4), t_off, 20, 50)]
