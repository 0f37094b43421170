"""C04 - code is verbatim: what code blocks and code spans contain reaches the output unchanged."""
import html as H
import os
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens

BINS = ["worker"]
RULE = ("Documents of code blocks (fences of backticks or tildes of any length with and without a language, indented code) and code spans (one to three backticks) in paragraphs, headings, lists, quotes, tables, links and definitions, whose contents are random sequences of the syntax of every extension and whose "
        "surroundings define abbreviations, references, notes and metadata; in every dialect and with the text-changing options on, the content of each code element must equal the source, in order, and the text around it must stay. Each text pass that handles code itself is also run alone: a document whose only syntax is in code must "
        "come out unchanged. Non-trivial: the code contains syntax of an extension.")
ASSUMPTIONS = ["no code languages that stand for data (table)", "the private-use noncharacter U+FDD1 does not occur"]

EXTRA = ["a, b", "[[x]]", "x: y", "@import", "(c)", "| x | y |", "http://a.b/c_d_e", "f(x)[0]", "<T>", "a -- b", "'q'", "&nbsp;", "%x", "$1 $2", "{{ x }}", "[x](y){.z}", "#include <x>", "\\n", "^a^", "~a~", "a^2", "//x", "/* y */",
         "{% raw %}", "{% if a<b %}", "?x", "key: value", "{:.x}", "[>x]: y", "*[AB]: cd", "AB", "table: x", "HTML", "[%title]", "[r]", "[^n]", ":::", "1. x", "- x", "+ y", "* z", "> q", "# h", "===", "term", ": def", "\\", "a_b_c", "snake_case_", "**p", "!x", "<!-- c -->", "&lt;", "10:30:45", "#tag", "me@e.com", '<div markdown="1">*x*</div>', '<b markdown="span">', "</div>", "> [!NOTE]", "::: note"]
BASE = [f.strip("\n") for f in gens.FRAGS if f.strip() and "`" not in f and "\r" not in f and "\x0b" not in f and "~~~" not in f and "\x1b" not in f and "\ufeff" not in f] + EXTRA
ONE = sorted({f for f in BASE if "\n" not in f})
MULTI = sorted({f for f in BASE if "\n" in f})
atom = st.one_of(st.sampled_from(ONE), st.sampled_from(ONE), st.sampled_from(ONE), gens.word, st.sampled_from([" ", "x", "é", "  "]))
cline = st.lists(atom, min_size=1, max_size=5).map("".join)
code = st.lists(st.one_of(cline, cline, cline, st.sampled_from(MULTI), st.just("")), min_size=1, max_size=4).map("\n".join)
KINDS = ["fence", "fence", "fence", "indent", "span", "span", "span2", "head", "list", "quote", "cell", "link", "listfence", "quotefence", "multi", "nested", "em", "deflist", "note"]
case_s = st.fixed_dictionaries({
    "b": st.lists(st.tuples(st.sampled_from(KINDS), code, st.integers(0, 7), gens.uword), min_size=1, max_size=4), "mode": st.sampled_from([0, 1, 2, 3, 4, 4, 4]),
    "opt": st.fixed_dictionaries({}, optional={k: st.just(1) for k in ("enable_hashtags", "proofreader_mode", "enable_indices", "enable_citations", "enable_wiki_links", "standalone", "obfuscate_emails", "hardbreaks", "enable_autolink", "unsafe", "code_is_poetry")} | {"critic_mode": st.integers(0, 2), "enable_critic_markup": st.just(1)}), "inc": st.sampled_from([False] * 5 + [True]),
    "pre": st.sets(st.integers(0, 3)).map(sorted)})
PRE = ["*[HTML]: Hyper Text\n*[AB]: cd ef\n", "[r]: http://e.com \"T\"\n", "[^n]: The note.\n", "{:ref: .c}\n"]


def spanable(c):
    c = " ".join(c.replace("`", "").split())
    return c


def build(case):
    """-> (source, [expected code content], [words])"""
    out, exp, words = ["Start.\n"], [], []
    for i in sorted(case["pre"]):
        if i in (0, 3) and case["mode"] < 2: continue
        if i == 2: out.append("See[^n].\n")
        if i == 2 and case["mode"] == 1: out[-1] = "See.\n"
        out.append(PRE[i])
    for kind, c, k, w in case["b"]:
        words.append(w)
        s = spanable(c)
        if kind in ("fence", "listfence", "quotefence", "nested"):
            # tabs in containers are expanded, blank-only lines keep their prefix trimmed
            mark = ("`" if k % 2 == 0 else "~") * (3 + k // 3)
            lines = [l.rstrip() if kind != "fence" else l for l in c.split("\n")]
            if kind != "fence": lines = [l.replace("\t", " ") for l in lines]
            if mark[0] == "~": lines = [l if not re.match(r" *~~~", l) else "x" + l for l in lines]
            content = "\n".join(lines) + "\n"
            lang = ["", "c", "python", "text"][k % 4]
            body = [mark + lang] + lines + [mark]
            if kind == "fence": out.append("\n".join(body) + "\n")
            elif kind == "listfence": out.append("- " + w + "\n\n" + "".join(("  " + l).rstrip() + "\n" for l in body))
            elif kind == "quotefence": out.append("> " + w + "\n>\n" + "".join((("> " + l) if l else ">") + "\n" for l in body))
            else: out.append("> 1. " + w + "\n>\n" + "".join((">    " + l).rstrip() + "\n" for l in body))
            exp.append(content)
            out.append(w + " end.\n")
        elif kind == "indent":
            lines = [l.rstrip() for l in c.split("\n")]
            while lines and not lines[0]: lines.pop(0)
            while lines and not lines[-1]: lines.pop()
            if not lines: lines = ["x"]
            out.append(w + " para.\n")
            out.append("".join(("    " + l if l else "") + "\n" for l in lines))
            exp.append("\n".join(lines) + "\n")
            out.append(w + " end.\n")
        else:
            if not s: s = "x"
            t = {"span2": "``", "em": "`" * (1 + k % 3)}.get(kind, "`")
            if kind in ("cell",): s = s.replace("|", "/").replace("\\", "/")
            if kind == "link": s = re.sub(r"[\[\]<>]", "/", s)
            if kind == "multi" and "{%" not in s:
                ws = s.split(" ")
                src = " ".join(ws[:1]) + ("\n" if len(ws) > 1 and not re.match(r"([-+*>#=~:|{<\[(!]|\d|[a-zA-Z][.)])", ws[1]) else " " if len(ws) > 1 else "") + " ".join(ws[1:])
            else: src = s
            sp = t + src + t
            exp.append(s)
            if kind == "head": out.append("# %s %s x\n" % (w, sp))
            elif kind == "list": out.append("- %s %s x\n- other\n\nEnd.\n" % (w, sp))
            elif kind == "quote": out.append("> %s %s x\n\nEnd.\n" % (w, sp))
            elif kind == "cell" and "\n: def" in out[-1]: out.append("End.\n\n| %s | b |\n|---|---|\n| %s | c |\n\nEnd.\n" % (w, sp))  # ": x" before a table is its caption
            elif kind == "cell": out.append("| %s | b |\n|---|---|\n| %s | c |\n\nEnd.\n" % (w, sp)) if case["mode"] else out.append("%s %s x.\n" % (w, sp))
            elif kind == "link": out.append("See [%s %s x](u).\n" % (w, sp))
            elif kind == "em": out.append("**%s %s x**, *%s*.\n" % (w, sp, w))
            elif kind == "deflist": out.append("%s\n: def %s x\n%s" % (w, sp, "" if len(sp) % 2 else "\nEnd.\n") if case["mode"] >= 2 else "%s %s x.\n" % (w, sp))
            elif kind == "note": out.append("%s %s (%s) x; %s.\n" % (w, sp, sp, sp)); exp += [s, s]
            else: out.append("%s %s x.\n" % (w, sp))
    return "\n".join(out), exp, words


SYN = re.compile(r"[\[\]{}<>|*_~^:$%#=+!@\\&]")


def t_doc(case, ctx):
    src, exp, words = build(case)
    opt = dict(case["opt"])
    if case.get("inc"):
        ctx.label("included")
        with open(os.path.join(ctx.scratch, "part.md"), "w") as f: f.write(src)
        src = "Start.\n\n{{part.md}}\n\nEnd.\n"
        opt.update(base_directory=ctx.scratch, enable_file_includes=1)
    h = ctx.w.conv(src, case["mode"], **opt)
    if h is None: raise Violation("no output for %r" % src)
    raw = re.findall(r"(?s)<code[^>]*>(.*?)</code>", h)
    if any(re.search("[<>]", x) for x in raw): raise Violation("code is not escaped: %r\n%r" % (src, raw))
    got = [H.unescape(x) for x in raw]
    if any(SYN.search(e) for e in exp): ctx.nt(src)
    ctx.label("mode%d" % case["mode"])
    if got != exp: raise Violation("code of %r (mode %d, %r)\n%r\n---\n%r\n%s" % (src, case["mode"], case["opt"], got, exp, h[:1500]))
    txt = H.unescape(re.sub(r"(?s)<code[^>]*>.*?</code>|<[^>]*>", " ", h))
    for w in words:
        if w not in txt: raise Violation("text %r around code is lost: %r\n%s" % (w, src, h[:1500]))


# ---- the text passes alone
TEXT = ["apex_process_highlights", "apex_process_inserts", "apex_process_sup_sub", "apex_process_inline_footnotes", "apex_process_inline_tables", "apex_process_relaxed_tables", "apex_process_headerless_tables", "apex_preprocess_bracketed_spans"]
HTML = ["apex_replace_emoji", "apex_convert_relaxed_table_headers", "apex_remove_table_separator_rows", "abbr"]
piece = st.one_of(st.tuples(st.just("span"), cline), st.tuples(st.just("fence"), code), st.tuples(st.just("lang"), code), st.tuples(st.just("words"), st.lists(gens.word, min_size=1, max_size=4).map(" ".join)))
pass_s = st.fixed_dictionaries({"fn": st.sampled_from(TEXT + TEXT + HTML), "p": st.lists(piece, min_size=1, max_size=4)})


def t_pass(case, ctx):
    fn, out = case["fn"], ""
    htmlp = fn in HTML
    for k, c in case["p"]:
        e = H.escape(c, quote=True)
        if k == "words": out += "<p>%s</p>\n" % c if htmlp else c + ".\n\n"
        elif k == "span": out += "<p>word <code>%s</code> end</p>\n" % H.escape(spanable(c) or "x") if htmlp else "word `%s` end.\n\n" % (spanable(c) or "x")
        else: out += "<pre%s><code>%s\n</code></pre>\n" % (' lang="c"' if k == "lang" else "", e) if htmlp else "```%s\n%s\n```\n\n" % ("c" if k == "lang" else "", c)
    if any(k != "words" and SYN.search(c) for k, c in case["p"]): ctx.nt(fn + out)
    ctx.label(fn)
    if fn == "abbr":
        got = ctx.w.call("abbr", "*[AB]: cd\n*[HTML]: x y\n*[x]: z\n*[a]: z\n*[note]: z\n*[amp]: z\n*[lt]: z\n", out)[1].decode()
    else: got = ctx.w.t2t(fn, out)
    if got is not None and got != out: raise Violation("%s changes code: %r\n---\n%r" % (fn, out, got))


PROPS = [Prop("documents", lambda: case_s, t_doc, 14000, 120000), Prop("passes", lambda: pass_s, t_pass, 10000, 80000)]
