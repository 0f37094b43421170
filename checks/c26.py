"""C26 - the command line program is the library: flags are options, files and pipes are the same, failures are reported."""
import os
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, cli

BINS = ["worker", "apex"]
RULE = ("Random lists of documented flags (each with the options it stands for, written down here from the help text), in any order, long and short, repeated and contradicting each other, before and after --mode, run over generated documents that use "
        "the features the flags control; the program's output must be what the library gives for those options. The same document from a file, from standard input, to standard output and to -o must give the same bytes. Bad flags, values and files, and "
        "outputs that cannot be written, must end with a status other than 0 and a message. Non-trivial: at least two flags, or a failure.")
ASSUMPTIONS = ["without --mode the program uses the default options (unified, index syntaxes off)", "documents without metadata: metadata is C07 to C09"]
MODES = [("commonmark", 0), ("gfm", 1), ("mmd", 2), ("multimarkdown", 2), ("kramdown", 3), ("unified", 4)]


def onoff(flag, opt, **more):
    return [(["--" + flag], dict({opt: 1}, **more)), (["--no-" + flag], {opt: 0})]


FLAGS = [(["--no-tables"], {"enable_tables": 0}), (["--no-footnotes"], {"enable_footnotes": 0}), (["--no-smart"], {"enable_smart_typography": 0}), (["--no-math"], {"enable_math": 0}), (["--hardbreaks"], {"hardbreaks": 1}),
         (["-s"], {"standalone": 1}), (["--standalone"], {"standalone": 1}), (["--pretty"], {"pretty": 1}), (["--accept"], {"enable_critic_markup": 1, "critic_mode": 0}), (["--reject"], {"enable_critic_markup": 1, "critic_mode": 1}),
         (["--no-ids"], {"generate_header_ids": 0}), (["--header-anchors"], {"header_anchors": 1}), (["--id-format", "gfm"], {"id_format": 0}), (["--id-format", "mmd"], {"id_format": 1}), (["--id-format", "kramdown"], {"id_format": 2}),
         (["--captions", "above"], {"caption_position": 0}), (["--captions", "below"], {"caption_position": 1}), (["--obfuscate-emails"], {"obfuscate_emails": 1}), (["--aria"], {"enable_aria": 1}), (["--widont"], {"enable_widont": 1}),
         (["--code-is-poetry"], {"code_is_poetry": 1, "highlight_language_only": 1}), (["--random-footnote-ids"], {"random_footnote_ids": 1}), (["--hashtags"], {"enable_hashtags": 1}), (["--style-hashtags"], {"style_hashtags": 1}),
         (["--proofreader"], {"proofreader_mode": 1, "enable_critic_markup": 1, "critic_mode": 2}), (["--hr-page-break"], {"hr_page_break": 1}), (["--title-from-h1"], {"title_from_h1": 1}), (["--page-break-before-footnotes"], {"page_break_before_footnotes": 1}),
         (["--wikilink-space", "dash"], {"wikilink_space": 0}), (["--wikilink-space", "none"], {"wikilink_space": 1}), (["--wikilink-space", "underscore"], {"wikilink_space": 2}), (["--wikilink-space", "space"], {"wikilink_space": 3}),
         (["--wikilink-extension", "html"], {"wikilink_extension": "html"}), (["--wikilink-extension", ".md"], {"wikilink_extension": ".md"}), (["--title-captions-only"], {"title_captions_only": 1, "enable_image_captions": 1}), (["--no-title-captions-only"], {"title_captions_only": 0}),
         (["--indices"], {"enable_indices": 1, "enable_mmark_index_syntax": 1, "enable_textindex_syntax": 1, "enable_leanpub_index_syntax": 1}), (["--no-indices"], {"enable_indices": 0}), (["--no-index"], {"suppress_index": 1}),
         (["--title", "My Title"], {"document_title": "My Title"}), (["--title", "Q & A"], {"document_title": "Q & A"}), (["--embed-images"], {"embed_images": 1}), (["--no-progress"], {}), (["--no-plugins"], {"enable_plugins": 0}),
         (["--no-bibliography"], {"suppress_bibliography": 1}), (["--link-citations"], {"link_citations": 1}), (["--show-tooltips"], {"show_tooltips": 1}), (["--bibliography", "r.bib"], {"bib": "r.bib", "enable_citations": 1}), (["--bibliography", "s.bib"], {"bib": "s.bib", "enable_citations": 1}),
         (["--css", "a.css"], {"css": "a.css", "standalone": 1}), (["--style", "b.css, c.css"], {"css": ["b.css", "c.css"], "standalone": 1}), (["--embed-css"], {"embed_stylesheet": 1}),
         (["--script", "x.js"], {"script": ["<script src=\"x.js\"></script>"]}), (["--script", "MathJax"], {"script": ["<script src=\"https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-mml-chtml.js\"></script>"]}),
         (["--script", "mermaid, y.js"], {"script": ["<script src=\"https://cdn.jsdelivr.net/npm/mermaid@10/dist/mermaid.min.js\"></script>", "<script src=\"y.js\"></script>"]})]
for f, o in [("includes", "enable_file_includes"), ("relaxed-tables", "relaxed_tables"), ("per-cell-alignment", "per_cell_alignment"), ("alpha-lists", "allow_alpha_lists"), ("mixed-lists", "allow_mixed_list_markers"), ("unsafe", "unsafe"), ("sup-sub", "enable_sup_sub"),
             ("divs", "enable_divs"), ("spans", "enable_spans"), ("autolink", "enable_autolink"), ("strikethrough", "enable_strikethrough"), ("wikilinks", "enable_wiki_links"), ("emoji-autocorrect", "enable_emoji_autocorrect"),
             ("markdown-in-html", "enable_markdown_in_html"), ("wikilink-sanitize", "wikilink_sanitize"), ("transforms", "enable_metadata_transforms"), ("image-captions", "enable_image_captions")]:
    FLAGS += onoff(f, o)
FMT = {"html": 0, "json": 1, "json-filtered": 2, "ast-json": 2, "ast": 2, "markdown": 3, "md": 3, "mmd": 4, "commonmark": 5, "cmark": 5, "kramdown": 6, "gfm": 7, "terminal": 8, "cli": 8, "terminal256": 9, "man": 10, "man-html": 11}
FLAGS += [([a, k], {"output_format": v}) for k, v in FMT.items() if k != "html" for a in ("-t", "--to")]
FLAGS += [(["--to", "html"], {"output_format": 0})] * 20
# every feature a flag controls, one block each
BLOCKS = ["# One two three four", "## One two three four\n\n### Café & more: here", "| a | b |\n|---|---|\n| c | d |\n\n[Cap]", "| a | b |\n| c | d |", "| :a: | b: |\n|---|---|\n| :c | :d: |", "x[^1] and y^[z]\n\n[^1]: note", "\"quoted\" -- it's 1/2 ...", "$a+b$ and $$c$$", "line\nbreak",
          "{++ins++} {--del--} {~~a~>b~~} {==h==}{>>c<<}", "me@example.com and http://example.com/x", "![alt](i.png \"title\")", "![alt only](i.png)", "```\npoem\n```\n\n```c\nint x;\n```", "#tag and ==high== ~~del~~", "---", "[[Some Page]] [[It's B|Text]]",
          "(!term) and {i: \"other\"} word{^}", "[@key] and @two", "<div markdown=\"1\">\n*x*\n</div>", "<b>raw</b> <!-- c -->", "x^2^ H~2~O m^2", "::: note\ntext\n:::", "[span]{.c}", "a. one\nb. two", "- a\n* b\n1. c", ":smle: :smile:", "<<[inc.md]", "term\n: def", "> [!NOTE]\n> c", "- [ ] t\n- [x] u", "[%title:upper]", "{{TOC}}", "Text HTML\n\n*[HTML]: Hyper"]


def flatten(flags):
    o = {}
    for f in flags:
        for k, v in FLAGS[f % len(FLAGS)][1].items():
            if k in ("css", "script", "bib"): o[k] = o.get(k, []) + (v if isinstance(v, list) else [v])
            else: o[k] = v
    return o


def setup(ctx):
    d = os.path.join(ctx.scratch, "w")
    if not os.path.exists(os.path.join(d, "i.png")):
        cli.put(os.path.join(d, "inc.md"), "Included *text*\n")
        cli.put(os.path.join(d, "r.bib"), "@book{key, author={Smith, A}, title={T}, year={1999}}\n")
        cli.put(os.path.join(d, "s.bib"), "@book{two, author={Jones, B}, title={U}, year={2001}}\n")
        cli.put(os.path.join(d, "i.png"), b"\x89PNG\r\n\x1a\n1234")
        for c in "abc": cli.put(os.path.join(d, c + ".css"), ".%s { color: red }\n" % c)
    return d


def doc(case): return "Start here\n\n" + "\n\n".join(case["d"]) + "\n"


def lib(ctx, d, case, text, extra):
    o = flatten(case["f"])
    if case["m"] is None: o = dict({"enable_indices": 0, "enable_mmark_index_syntax": 0, "enable_textindex_syntax": 0, "enable_leanpub_index_syntax": 0}, **o)
    mode = 4 if case["m"] is None else MODES[case["m"]][1]
    lines = ["mode=%d" % mode] + ["%s=%s" % (k, v) for k, v in o.items() if not isinstance(v, list)] + ["%s=%s" % (k, x) for k, v in o.items() if isinstance(v, list) for x in v]
    lines += ["base_directory=" + d, "input_file_path=" + extra]
    return ctx.w.call("conv", "\n".join(lines), text)[0].decode("utf-8", "surrogateescape")


def t_flags(case, ctx):
    d = setup(ctx)
    args = [FLAGS[f % len(FLAGS)][0] for f in case["f"]]
    if case["m"] is not None: args.insert(case["at"] % (len(args) + 1), [["-m", "--mode"][case["at"] % 2], MODES[case["m"]][0]])
    args = [a for g in args for a in g]
    text = doc(case)
    path = os.path.join(d, "doc.md")
    cli.put(path, text)
    want = lib(ctx, d, case, text, path)
    out = os.path.join(d, "out.x")
    runs = [("file to standard output", args + [path], b"", None), ("file to -o", [path] + args + ["-o", out], b"", out), ("--output before the flags", ["--output", out] + args + [path], b"", out)]
    got = {}
    for name, a, i, f in runs if case["all"] else [runs[case["at"] % 3]]:
        if f and os.path.exists(f): os.remove(f)
        rc, so, se = cli.run(ctx, a, i, cwd=d)
        if rc: raise Violation("%s: status %d: %s\n%s" % (name, rc, a, se[:300]))
        if f:
            if so: raise Violation("%s: also writes to standard output: %s" % (name, a))
            so = open(f, encoding="utf-8", errors="surrogateescape", newline="").read()
        if so != want: raise Violation("%s: output of %s is not the library's for %s\n%s\n--- program\n%s\n--- library\n%s" % (name, a, flatten(case["f"]), text, so, want))
    if case["all"]:
        rc, so, se = cli.run(ctx, args + ["--base-dir", d], text, cwd=d)
        want = lib(ctx, d, case, text, d)
        if rc or so != want: raise Violation("standard input: output of %s (%d) is not the library's\n%s\n--- program\n%s\n--- library\n%s" % (args, rc, text, so, want))
        if open(path, encoding="utf-8").read() != text: raise Violation("the input file was changed by %s" % args)
    ctx.nt(len(case["f"]) > 1)


def t_each(case, ctx):
    """each flag alone, on a document with every block"""
    d = BLOCKS[case["rot"] % len(BLOCKS):] + BLOCKS[:case["rot"] % len(BLOCKS)]
    for f in range(case["i"], len(FLAGS), 16):
        t_flags({"f": [f], "m": case["m"], "at": case["rot"], "d": d, "all": False}, ctx)
    ctx.nt(True)


flags_s = st.fixed_dictionaries({"f": st.lists(st.integers(0, len(FLAGS) - 1), max_size=7), "m": st.one_of(st.none(), st.integers(0, 5)), "at": st.integers(0, 20), "d": st.lists(st.sampled_from(BLOCKS), min_size=1, max_size=6), "all": st.booleans()})

# metadata key for options that a flag can set to either value or to a value that differs from the default
BOTH = {"includes": "enable_file_includes", "relaxed-tables": "relaxed_tables", "alpha-lists": "allow_alpha_lists", "mixed-lists": "allow_mixed_list_markers", "unsafe": "unsafe", "sup-sub": "enable_sup_sub", "autolink": "enable_autolink",
        "strikethrough": "enable_strikethrough", "wikilinks": "enable_wiki_links", "markdown-in-html": "enable_markdown_in_html", "wikilink-sanitize": "wikilink_sanitize", "transforms": "enable_metadata_transforms", "image-captions": "enable_image_captions"}
ONE = {"pretty": ("--pretty", 1), "hardbreaks": ("--hardbreaks", 1), "standalone": ("-s", 1), "header-anchors": ("--header-anchors", 1), "obfuscate-emails": ("--obfuscate-emails", 1), "hashtags": ("--hashtags", 1), "widont": ("--widont", 1), "hr-page-break": ("--hr-page-break", 1),
       "tables": ("--no-tables", 0), "footnotes": ("--no-footnotes", 0), "smart": ("--no-smart", 0), "math": ("--no-math", 0), "ids": ("--no-ids", 0), "title-from-h1": ("--title-from-h1", 1), "page-break-before-footnotes": ("--page-break-before-footnotes", 1), "style-hashtags": ("--style-hashtags", 1)}
OPT = dict(BOTH, **{"pretty": "pretty", "hardbreaks": "hardbreaks", "standalone": "standalone", "header-anchors": "header_anchors", "obfuscate-emails": "obfuscate_emails", "hashtags": "enable_hashtags", "widont": "enable_widont", "hr-page-break": "hr_page_break", "tables": "enable_tables",
                    "footnotes": "enable_footnotes", "smart": "enable_smart_typography", "math": "enable_math", "ids": "generate_header_ids", "title-from-h1": "title_from_h1", "page-break-before-footnotes": "page_break_before_footnotes", "style-hashtags": "style_hashtags"})


def t_meta(case, ctx):
    """an option in metadata, and a flag that says otherwise"""
    d = setup(ctx)
    o, y, args = {}, [], []
    for k, v in sorted(case["meta"].items()):
        y.append("%s: %s" % (k, "true" if v else "false"))
        o[OPT[k]] = v
    mode = 4
    if case["m"] is not None:
        args = ["--mode", MODES[case["m"]][0]]
        mode = MODES[case["m"]][1]
    elif case["mm"] is not None:
        y.insert(0, "mode: " + MODES[case["mm"]][0])
        mode = MODES[case["mm"]][1]
    if case["m"] is not None and case["mm"] is not None: y.insert(0, "mode: " + MODES[case["mm"]][0])
    keys = sorted(case["meta"]) * 3 + sorted(OPT)
    for k, v in case["flags"]:
        k = keys[k % len(keys)]
        if k in BOTH: args += [("--" if v else "--no-") + k]
        else:
            f, v = ONE[k]
            args += [f]
        o[OPT[k]] = v
    if case["rev"]: args = args[2:] + args[:2] if case["m"] is not None else args
    y = "---\n" + "\n".join(y) + "\n---\n\n"
    text = doc(case)
    src = (y if case["where"] == 0 else "") + text
    if case["where"] == 1:
        cli.put(os.path.join(d, "m.yml"), y)
        args += ["--meta-file", "m.yml"]
    if case["where"] == 2: args += [x for l in y.split("\n")[1:-3] for x in ("--meta", l.replace(": ", "="))]
    if case["m"] is None and case["mm"] is None: o = dict({"enable_indices": 0, "enable_mmark_index_syntax": 0, "enable_textindex_syntax": 0, "enable_leanpub_index_syntax": 0}, **o)
    path = os.path.join(d, "doc.md")
    cli.put(path, src)
    libtext = y + text if mode > 1 else text
    want = ctx.w.call("conv", "\n".join(["mode=%d" % mode] + ["%s=%s" % kv for kv in o.items()] + ["base_directory=" + d, "input_file_path=" + path]), libtext)[0].decode("utf-8", "surrogateescape")
    rc, so, se = cli.run(ctx, args + [path], b"", cwd=d)
    if rc or so != want: raise Violation("metadata and flags %s (%d) do not give the library's output for %s\n%s\n--- program\n%s\n--- library\n%s" % (args, rc, o, src, so, want))
    ctx.nt(bool(case["meta"]) and bool(case["flags"]))


meta_s = st.fixed_dictionaries({"meta": st.dictionaries(st.sampled_from(sorted(OPT)), st.integers(0, 1), min_size=1, max_size=5), "flags": st.lists(st.tuples(st.integers(0, 43), st.integers(0, 1)), max_size=5), "m": st.one_of(st.none(), st.integers(2, 5)), "mm": st.one_of(st.none(), st.integers(0, 5)),
                                "where": st.integers(0, 2), "rev": st.booleans(), "d": st.lists(st.sampled_from(BLOCKS), min_size=1, max_size=5)})
VAL = ["--mode", "-m", "--to", "-t", "--title", "--css", "--style", "--script", "--id-format", "--captions", "--code-highlight", "--wikilink-space", "--wikilink-extension", "--base-dir", "--bibliography", "--csl", "--meta-file", "--meta", "-o", "--output", "--theme", "--width", "--filter", "--lua-filter", "--install-plugin", "--uninstall-plugin", "--install-filter", "--uninstall-filter"]
ENUM = ["--mode", "-m", "--to", "-t", "--id-format", "--captions", "--code-highlight", "--wikilink-space"]


def t_fail(case, ctx):
    d = setup(ctx)
    path = os.path.join(d, "doc.md")
    cli.put(path, doc(case))
    args = [a for f in case["f"] for a in FLAGS[f % len(FLAGS)][0]]
    k, n = case["k"], case["n"]
    stdout = None
    if k == 0: bad = args + [VAL[n % len(VAL)]]
    elif k == 1: bad = args + [ENUM[n % len(ENUM)], case["w"], path]
    elif k == 2: bad = args + ["--x" + case["w"], path]
    elif k == 3: bad = args + [os.path.join(d, "none", case["w"])]
    elif k == 4: bad = args + [path, "-o", os.path.join(d, "none", case["w"])]
    elif k == 5: bad = args + [path, "-o", "/dev/full"]
    elif k == 6: bad, stdout = args + [path], "/dev/full"
    elif k == 7: bad = args + [d]
    if stdout:
        import subprocess
        with open(stdout, "wb") as f:
            p = subprocess.run([ctx.bins["apex"]] + bad, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE, cwd=d, env={"PATH": os.environ.get("PATH", ""), "HOME": os.path.join(ctx.scratch, "home")}, timeout=30)
        rc, so, se = p.returncode, "", p.stderr.decode(errors="replace")
    else: rc, so, se = cli.run(ctx, bad, doc(case), cwd=d)
    if rc == 0: raise Violation("status 0 for %s%s" % (bad, " to a full device" if stdout else ""))
    if not se.strip(): raise Violation("no message for %s" % bad)
    if k < 5 and "<p>" in so: raise Violation("output in spite of a mistake: %s\n%s" % (bad, so))
    ctx.nt(True)
    ctx.label("failure %d" % k)


fail_s = st.fixed_dictionaries({"k": st.integers(0, 7), "n": st.integers(0, 200), "w": st.text("bcdfgq", min_size=4, max_size=8), "f": st.lists(st.integers(0, 40), max_size=3), "d": st.lists(st.sampled_from(BLOCKS), min_size=1, max_size=2)})
PROPS = [Prop("flags", lambda: flags_s, t_flags, 1500, 30000), Prop("each", lambda: st.fixed_dictionaries({"i": st.integers(0, 15), "m": st.one_of(st.none(), st.integers(0, 5)), "rot": st.integers(0, 40)}), t_each, 240, 3000), Prop("metadata", lambda: meta_s, t_meta, 1200, 20000), Prop("failures", lambda: fail_s, t_fail, 500, 5000)]
