"""C09 - metadata from files, documents and the command line: precedence, and its effect on the options."""
import os, re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, htm, cli

BINS = ["worker", "apex"]
RULE = ("Lists of metadata items (every documented option key and spelling, true/false/other values in any case, unknown keys, repeated keys, a mode) are applied to the options and the complete option set compared with a table; "
        "merged lists, --meta arguments and metadata files are compared with a model; documents with option metadata are compared with the same conversion under the option itself; the program is run with keys in file, document and command line. "
        "Non-trivial: at least one recognised key, or a key defined in more than one place.")
ASSUMPTIONS = ["option metadata that names files or external programs (csl, bibliography, plugins) is only compared at the option level"]
T = {"enable_indices": ["indices"], "enable_wiki_links": ["wikilinks", "wiki-links"], "enable_file_includes": ["includes", "file-includes"], "relaxed_tables": ["relaxed-tables", "relaxed_tables"],
     "allow_alpha_lists": ["alpha-lists", "alpha_lists"], "allow_mixed_list_markers": ["mixed-lists", "mixed_lists"], "enable_sup_sub": ["sup-sub", "sup_sub"], "enable_autolink": ["autolink"],
     "enable_strikethrough": ["strikethrough", "strike-through"], "enable_metadata_transforms": ["transforms", "metadata-transforms"], "unsafe": ["unsafe"], "enable_plugins": ["plugins", "enable-plugins", "enable_plugins"],
     "enable_tables": ["tables"], "enable_footnotes": ["footnotes"], "enable_smart_typography": ["smart", "smart-typography"], "enable_math": ["math"], "generate_header_ids": ["ids", "header-ids"],
     "header_anchors": ["header-anchors", "header_anchors"], "embed_images": ["embed-images", "embed_images"], "enable_image_captions": ["image-captions", "image_captions"], "title_captions_only": ["title-captions-only", "title_captions_only"],
     "link_citations": ["link-citations", "link_citations"], "show_tooltips": ["show-tooltips", "show_tooltips"], "suppress_bibliography": ["suppress-bibliography", "suppress_bibliography"],
     "suppress_index": ["suppress-index", "suppress_index"], "group_index_by_letter": ["group-index-by-letter", "group_index_by_letter"], "obfuscate_emails": ["obfuscate-emails", "obfuscate_emails"], "pretty": ["pretty"],
     "standalone": ["standalone"], "hardbreaks": ["hardbreaks", "hard-breaks"], "enable_widont": ["widont"], "code_is_poetry": ["code-is-poetry", "code_is_poetry"], "enable_markdown_in_html": ["markdown-in-html", "markdown_in_html"],
     "random_footnote_ids": ["random-footnote-ids", "random_footnote_ids"], "enable_hashtags": ["hashtags"], "style_hashtags": ["style-hashtags", "style_hashtags"], "proofreader_mode": ["proofreader"],
     "hr_page_break": ["hr-page-break", "hr_page_break"], "title_from_h1": ["title-from-h1", "title_from_h1"], "page_break_before_footnotes": ["page-break-before-footnotes", "page_break_before_footnotes"],
     "wikilink_sanitize": ["wikilink-sanitize", "wikilink_sanitize"], "code_line_numbers": ["code-line-numbers", "code_line_numbers"], "highlight_language_only": ["highlight-language-only", "highlight_language_only"]}
IMPLY = {"enable_indices": {"enable_mmark_index_syntax": "1", "enable_textindex_syntax": "1", "enable_leanpub_index_syntax": "1"}, "title_captions_only": {"enable_image_captions": "1"}, "code_is_poetry": {"highlight_language_only": "1"},
         "proofreader_mode": {"enable_critic_markup": "1", "critic_mode": "2"}}
KEY = {k: f for f, ks in T.items() for k in ks}
MODES = {"commonmark": 0, "gfm": 1, "mmd": 2, "multimarkdown": 2, "kramdown": 3, "unified": 4}
TRUE, FALSE = ["true", "yes", "1", "True", "YES", "TRUE"], ["false", "no", "0", "False", "NO"]
OTHER = ["", "maybe", "on", "off", "2", "truely", "-1"]


def apply(d, items):
    """the documented effect of the items, in order, on an option dump"""
    for k, v in items:
        k, l = k.lower(), v.lower()
        if k in KEY:
            f = KEY[k]
            if l in ("true", "yes", "1"):
                d[f] = "1"; d.update(IMPLY.get(f, {}))
            elif l in ("false", "no", "0"): d[f] = "0"
        elif k == "csl": d["csl_file"] = v; d["enable_citations"] = "1"
        elif k == "bibliography": d["enable_citations"] = "1"
        elif k == "title": d["document_title"] = v
        elif k in ("style", "css"): d["css"] = v; d["stylesheet_count"] = "1"; d["standalone"] = "1"
        elif k in ("id-format", "id_format"): d["id_format"] = {"gfm": "0", "mmd": "1", "kramdown": "2"}.get(l, d["id_format"])
        elif k in ("base-dir", "base_dir"): d["base_directory"] = v
        elif k in ("wikilink-space", "wikilink_space"): d["wikilink_space"] = {"dash": "0", "none": "1", "underscore": "2", "space": "3"}.get(l, d["wikilink_space"])
        elif k in ("wikilink-extension", "wikilink_extension"): d["wikilink_extension"] = v
        elif k in ("terminal.width", "terminal_width"):
            m = re.match(r"\d+", v)
            if m and int(m.group()) > 0: d["terminal_width"] = m.group()
        elif k in ("terminal.theme", "terminal_theme"):
            if d["theme_name"] in ("~", ""): d["theme_name"] = v
        elif k in ("code-highlight", "code_highlight"):
            h = {"pygments": "pygments", "p": "pygments", "pyg": "pygments", "skylighting": "skylighting", "s": "skylighting", "sky": "skylighting", "shiki": "shiki", "sh": "shiki", "false": "~", "no": "~", "0": "~", "none": "~"}.get(l)
            if h: d["code_highlighter"] = h


def dump(r):
    d = {}
    for x in r:
        k, _, v = x.decode("utf-8", "surrogateescape").partition("=")
        d[k] = v
    return d


item = st.one_of(
    st.tuples(st.sampled_from(sorted(KEY)), st.sampled_from(TRUE + FALSE + OTHER)),
    st.tuples(st.sampled_from(sorted(KEY)).map(str.title), st.sampled_from(TRUE + FALSE)),
    st.tuples(st.sampled_from(["id-format", "id_format", "ID-Format"]), st.sampled_from(["gfm", "mmd", "kramdown", "MMD", "x", ""])),
    st.tuples(st.sampled_from(["wikilink-space", "wikilink_space"]), st.sampled_from(["dash", "none", "underscore", "space", "Space", "tab"])),
    st.tuples(st.sampled_from(["title", "css", "style", "base-dir", "csl", "wikilink-extension", "bibliography", "terminal.theme", "terminal_theme"]), st.sampled_from(["x", "a b.css", "é"])),
    st.tuples(st.sampled_from(["terminal.width", "terminal_width"]), st.sampled_from(["80", "0", "-5", "40 cols", "x"])),
    st.tuples(st.sampled_from(["code-highlight", "code_highlight"]), st.sampled_from(["pygments", "P", "sky", "shiki", "none", "no", "x"])),
    st.tuples(st.sampled_from(["author", "keywords", "unknown", "tablesx", "footnote", "toc"]), gens.word))


def t_opts(case, ctx):
    items = [tuple(x) for x in case["i"]]
    base = dict(case["b"])
    o = "mode=%d\n" % base.pop("mode") + "".join("%s=%d\n" % kv for kv in base.items())
    d = dump(ctx.w.call("opts", o))
    if case["mode"] is not None:
        items = items[:case["at"]] + [("mode", case["mode"])] + items[case["at"]:]
        m = MODES.get(case["mode"].lower())
        if m is not None: d = dump(ctx.w.call("opts", "mode=%d\n" % m))
    apply(d, items)
    r = dump(ctx.w.call("meta_opts", o, *[x for kv in items for x in kv]))
    diff = {k: (r.get(k), d.get(k)) for k in set(r) | set(d) if r.get(k) != d.get(k)}
    if diff: raise Violation("metadata %r on %r: (got, expected) %r" % (items, o, diff))
    for k, _ in items: ctx.label("key" if k.lower() in KEY else "other")
    ctx.nt(any(k.lower() in KEY for k, _ in items))


# ---- merging ---------------------------------------------------------
MK = ["title", "Title", "author", "AUTHOR", "k1", "k2", "date"]
mitems = st.lists(st.tuples(st.sampled_from(MK), gens.word), max_size=5)


def uniq(l):
    out = {}
    for k, v in l: out[k.lower()] = (k, v)
    return list(out.values())


def t_merge(case, ctx):
    ls = [uniq(x) for x in case["l"]]
    want = {}
    for l in ls:
        for k, v in l: want[k.lower()] = (k, v)
    r = [x.decode() for x in ctx.w.call("meta_merge", *[str(len(l)) for l in ls], *[x for l in ls for kv in l for x in kv])]
    got = list(zip(r[::2], r[1::2]))
    if sorted(got) != sorted(want.values()): raise Violation("merging %r gives %r" % (ls, got))
    ctx.nt(sum(map(len, ls)) > len(want))


# ---- --meta ------------------------------------------------------------
mval = st.one_of(gens.word, st.lists(gens.word, min_size=1, max_size=3).map(" ".join), st.lists(gens.word, min_size=2, max_size=3).map(", ".join), st.sampled_from(["", "a=b", "1,2,3", "x y", "é", "http://e.com/a?b=c", "it's", "10:30"]))


def t_cmd(case, ctx):
    parts, want = [], []
    for k, v, q, sp in case["p"]:
        if "=" in v or ("," in v and q == ""): q = q or '"'
        if q and q in v: q = {"'": '"', '"': "'"}[q]
        parts.append(k + "=" + q + v + q); want.append((k, v))
    arg = ("," + case["sep"]).join(parts)
    r = [x.decode() for x in ctx.w.call("meta_cmd", arg)]
    got = list(zip(r[::2], r[1::2]))
    if sorted(got) != sorted(want): raise Violation("--meta %r gives %r, expected %r" % (arg, got, want))
    ctx.nt(len(want) > 1 or "," in arg)


def t_cmd_comma(case, ctx):
    """an unquoted comma that starts no new pair belongs to the value"""
    arg = case["k"] + "=" + ", ".join(case["v"])
    r = [x.decode() for x in ctx.w.call("meta_cmd", arg)]
    if r != [case["k"], ", ".join(case["v"])]: raise Violation("--meta %r gives %r" % (arg, r))
    ctx.nt(len(case["v"]) > 1)


# ---- the option and its metadata key agree in whole conversions --------
EXCL = {"random_footnote_ids", "enable_plugins", "embed_images", "unsafe"}
EFFECT = sorted(set(T) - EXCL)
BODY = """# Head *one*\n\nSome "quoted" text -- H~2~O, x^2^, ~~gone~~, http://e.com/x and me@e.com[^1], $a+b$, #tagged, [[Wiki Page]] [%zz:upper]\nnext (!term) line two\n\n[^1]: A note\n\n- a\n* b\n\na. x\nb. y\n\n| h | i |\n|---|---|\n| c | d |\n\n1 | 2\n3 | 4\n\n![cap](x.png "T")\n\n---\n\n`code` and\n\n```\nblock\n```\n\n<div markdown="1">*in*</div>\n\n{++add++} end of it\n"""


def t_effect(case, ctx):
    f, v, mode = case["f"], case["v"], case["m"]
    key = T[f][case["n"] % len(T[f])]
    body = BODY if case["t"] is None else case["t"]
    head = "---\nzz: val\n%s: %s\n---\n\n"
    rc, a, err = cli.run(ctx, ["-m", ["", "", "mmd", "kramdown", "unified"][mode]], head % (key, v) + body)
    if rc: raise Violation("apex fails: %s" % err[-300:])
    on = v.lower() in ("true", "yes", "1")
    o = {f: int(on)}
    if on: o.update({k: int(x) for k, x in IMPLY.get(f, {}).items()})
    if f == "standalone" and on or "<title>" in a: a = re.sub(r"<title>.*?</title>", "", a)
    # the same metadata block with a key of no meaning in its place
    b = ctx.w.conv(head % ("qq", v) + body, mode=mode, **o)
    b = re.sub(r"<title>.*?</title>", "", b) if "<title>" in b else b
    if a.strip() != b.strip(): raise Violation("%s: %s in the document (mode %d) and the option %r differ:\n%s\n--- option:\n%s" % (key, v, mode, o, a, b))
    c = ctx.w.conv(head % ("qq", v) + body, mode=mode, **{f: int(not on)})
    ctx.label(f); ctx.nt(a != c)


# ---- the program -----------------------------------------------------
CK = ["alpha", "beta", "Gamma", "delta"]
cdict = st.dictionaries(st.sampled_from(CK), st.tuples(gens.uword, gens.uword).map(" ".join), max_size=4)


def t_cli(case, ctx):
    d = os.path.join(ctx.scratch, "meta"); os.makedirs(d, exist_ok=True)
    f, doc, cmd = case["f"], case["d"], case["c"]
    args = ["-m", case["m"], "--no-plugins"] if case["np"] else ["-m", case["m"]]
    if f is not None:
        if case["ff"] == "yaml": txt = "---\n" + "".join("%s: %s\n" % kv for kv in f.items()) + "---\n"
        else: txt = "".join("%s: %s\n" % kv for kv in f.items()) + "\n"
        cli.put(os.path.join(d, "m.txt"), txt)
        if f: args += ["--meta-file", os.path.join(d, "m.txt")]
    if cmd:
        if case["one"]: args += ["--meta", ",".join("%s=%s" % kv for kv in cmd.items())]
        else: args += [x for kv in cmd.items() for x in ("--meta", "%s=%s" % kv)]
    body = "".join("so [%%%s] on\n\n" % k for k in CK)
    head = "---\n" + "".join("%s: %s\n" % kv for kv in doc.items()) + "---\n\n" if doc else ""
    rc, out, err = cli.run(ctx, args, head + body)
    if rc: raise Violation("apex %r fails: %s" % (args, err[-300:]))
    eff = {}
    for x in ((f or {}), doc, cmd):
        for k, v in x.items(): eff[k.lower()] = v
    want = ["so %s on" % eff.get(k.lower(), "[%%%s]" % k) for k in CK]
    got = [htm.squash(htm.text(x)) for x in out.split("</p>") if htm.squash(htm.text(x))]
    if got != want: raise Violation("apex %r with file %r and document %r:\n%r\nexpected\n%r" % (args, f, doc, got, want))
    n = sum(len(x or {}) for x in (f, doc, cmd))
    ctx.label("file" if f else "-", "document" if doc else "-", "command" if cmd else "-"); ctx.nt(n > len(eff))


PROPS = [
    Prop("options", lambda: st.fixed_dictionaries({"i": st.lists(item, max_size=6), "b": st.fixed_dictionaries({"mode": st.integers(0, 4)}, optional={k: st.integers(0, 1) for k in ("pretty", "standalone", "unsafe", "enable_math", "enable_tables")}),
                                                   "mode": st.sampled_from([None, None] + list(MODES) + ["GFM", "Unified", "nonsense"]), "at": st.integers(0, 6)}), t_opts, 6000),
    Prop("merge", lambda: st.fixed_dictionaries({"l": st.tuples(mitems, mitems, mitems).filter(lambda t: t[1] and t[2])}), t_merge, 3000),
    Prop("meta-args", lambda: st.fixed_dictionaries({"p": st.lists(st.tuples(st.sampled_from(["title", "k1", "my_key", "x-y", "K9"]), mval, st.sampled_from(["", '"', "'"]), st.just("")), min_size=1, max_size=4, unique_by=lambda x: x[0]), "sep": st.sampled_from(["", " "])}), t_cmd, 4000),
    Prop("meta-commas", lambda: st.fixed_dictionaries({"k": st.sampled_from(["title", "k1"]), "v": st.lists(st.lists(gens.word, min_size=1, max_size=2).map(" ".join), min_size=1, max_size=4)}), t_cmd_comma, 600),
    Prop("effect", lambda: st.fixed_dictionaries({"f": st.sampled_from(EFFECT), "v": st.sampled_from(TRUE + FALSE), "m": st.sampled_from([2, 3, 4]), "n": st.integers(0, 2), "t": st.none() | gens.sdoc.filter(lambda t: ":" not in t.split("\n")[0] and "---" not in t and "%" not in t)}), t_effect, 800),
    Prop("program", lambda: st.fixed_dictionaries({"f": st.none() | cdict, "d": cdict, "c": cdict, "ff": st.sampled_from(["yaml", "mmd"]), "m": st.sampled_from(["unified", "mmd"]), "one": st.booleans(), "np": st.booleans()}), t_cli, 500),
]
