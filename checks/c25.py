"""C25 - line endings, the end of the file and the way in and out do not matter."""
import os
import shutil
from hypothesis import strategies as st
from lib import cli, gens
from lib.runner import Prop
from lib.worker import Violation

BINS = ["worker", "apex"]
RULE = ("Documents of every kind of syntax are converted with LF, CR LF and CR line endings, with and without the final one, in all modes and output formats: the results must be the same but for line endings. "
        "The command line must give the same bytes for a file, standard input and -o, for any line endings in the document, its metadata block, included, metadata and bibliography files. Non-trivial: several lines.")
ASSUMPTIONS = ["-o appends no further bytes to what standard output would get", "a single line without a line ending may be a fragment: it is not read as metadata, as the project's tests require"]


def norm(h): return h.replace("\r\n", "\n").replace("\r", "\n")


def variants(t):
    return (("CR LF", t.replace("\n", "\r\n") + "\r\n"), ("no line ending at the end", t), ("CR", t.replace("\n", "\r") + "\r"), ("CR LF and none at the end", t.replace("\n", "\r\n")),
            ("mixed line endings", "".join(l + ("\n", "\r\n", "\r\n", "\n", "\r")[i * 7 % 5] for i, l in enumerate(t.split("\n")))))


def check(case, ctx):
    t = case["t"].replace("\r", "").rstrip("\n")
    if not t.strip(): return
    o = gens.opttext(case["o"])
    base = ctx.w.call("conv", o, t + "\n")[0]
    for name, v in variants(t):
        if "\n" not in t and name.endswith("at the end"): continue
        h = ctx.w.call("conv", o, v)[0]
        if h.replace(b"\r\n", b"\n").strip() != base.replace(b"\r\n", b"\n").strip():
            raise Violation("%s: the result of %r (%s) becomes\n%s\n--- instead of\n%s" % (name, t, o, h.decode("utf-8", "replace"), base.decode("utf-8", "replace")))
    ctx.label("mode %d" % case["o"]["mode"], "format %s" % case["o"].get("output_format", 0))
    ctx.nt("\n" in t)


META = ["", "", "---\ntitle: A b\nkey: [1, 2]\nmode: gfm\n---\n", "Title: A b\nKey: value\n\n", "% A b\n% Me\n", "---\ntitle: A b\ntoc: true\nstandalone: true\n---\n\n"]
BODY = ["[%key]", "Text [%title]", "# Head", "{{inc.md}}", "<<[inc.md]", "<<(code.py)", "/data.csv", "{{data.csv}}", "*[HTML]: Hyper\n\nHTML", "Some[^1]\n\n[^1]: note\n    more", "See [@k1] and [%sub]", "| a | b |\n|---|---|\n| 1 | 2 |\n[Cap]", "Term\n: Def",
        "```\ncode\n\nmore\n```", "<div markdown=\"1\">\n*x*\n</div>", "> [!NOTE]\n> text", "a\\\nb  \nc", "- a\n- b\n\n  c", "::: note\nx\n:::", "<!--TOC-->\n\n# B", "```table\na,b\nc,d\n```", "{% if x %}\ny\n{% endif %}"]


@st.composite
def cdoc(draw):
    return {"t": draw(st.sampled_from(META)) + "\n\n".join(draw(st.lists(st.sampled_from(BODY), min_size=1, max_size=5))), "v": draw(st.integers(0, 4)), "f": draw(st.sampled_from([0, 2, 4])), "mode": draw(st.sampled_from([None, "unified", "mmd", "kramdown", "gfm"])),
            "meta": draw(st.integers(0, 1)), "bib": draw(st.integers(0, 1)), "s": draw(st.integers(0, 1)), "to": draw(st.sampled_from([None, None, "json", "markdown", "man"])), "way": draw(st.sampled_from(["file", "stdin", "out"]))}


FILES = {"inc.md": "Included *text*\n\n- item\n", "code.py": "def f():\n    return 1\n\nx = 2\n", "data.csv": "h1,h2\n1,2\n3,4\n", "m.yml": "---\nsub: from file\nkey: outer\n---\n", "b.bib": "@book{k1,\n  author = {Doe, Jane},\n  title = {A Book},\n  year = 2001\n}\n"}


def check_cli(case, ctx):
    res = []
    t = case["t"].rstrip("\n")
    for plain in (1, 0):
        d = os.path.join(ctx.scratch, "d")
        shutil.rmtree(d, ignore_errors=True)
        for n, x in FILES.items():
            cli.put(os.path.join(d, n), x if plain else variants(x[:-1])[case["f"]][1])
        text = t + "\n" if plain else variants(t)[case["v"]][1]
        cli.put(os.path.join(d, "doc.md"), text)
        a = (["--mode", case["mode"]] if case["mode"] else []) + (["--meta-file", "m.yml"] if case["meta"] else []) + (["--bibliography", "b.bib"] if case["bib"] else []) + (["-s"] if case["s"] else []) + (["-t", case["to"]] if case["to"] else []) + ["--no-plugins"]
        if plain or case["way"] == "file": r = cli.run(ctx, a + ["doc.md"], cwd=d)
        elif case["way"] == "stdin": r = cli.run(ctx, a + ["--base-dir", "."], text, cwd=d)
        else:
            r = cli.run(ctx, a + ["-o", "out.x", "doc.md"], cwd=d)
            if r[1]: raise Violation("-o writes to standard output too: %r" % r[1][:300])
            with open(os.path.join(d, "out.x"), "rb") as f: r = (r[0], f.read().decode("utf-8", "surrogateescape"), r[2])
        if r[0]: raise Violation("apex %r fails: %s" % (a, r[2]))
        res.append(norm(r[1]))
    if case["way"] == "stdin" and case["s"]: res = [x.replace("<title>doc</title>", "<title>Document</title>") for x in res]
    if res[0].rstrip() != res[1].rstrip():
        raise Violation("variant %s of the document and %s of its files, by %s, options %r:\n%s\n---\n%s\n--- becomes\n%s" % (case["v"], case["f"], case["way"], a, t, res[0], res[1]))
    ctx.label(case["way"])
    ctx.nt("\n" in t)


PROPS = [Prop("endings", lambda: st.fixed_dictionaries({"t": gens.doc, "o": gens.options()}), check, 3500, 100000), Prop("command-line", cdoc, check_cli, 1200, 20000)]
