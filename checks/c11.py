"""C11 - multi-file documents: --combine (with SUMMARY.md) and --mmd-merge."""
import os, re, shutil
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, cli
from checks import c10

BINS = ["apex", "apexa"]
RULE = ("Generated folders of files (with includes, transclude bases, headings at every level, missing final newlines) are combined through file lists, SUMMARY.md files with every form of link, and mmd_merge index files with comments, blank lines and tab or space "
        "indentation; the output is compared byte for byte with a model. Non-trivial: two or more files contribute.")
ASSUMPTIONS = ["index lines are indented with tabs and complete groups of four spaces"]


def out_of(ctx, args, root, case):
    """the program's output, to stdout or through -o, from the plain or the AddressSanitizer build"""
    which = "apexa" if case["asan"] else "apex"
    if case["o"]:
        o = os.path.join(root, "OUT.md")
        rc, out, err = cli.run(ctx, args + ["-o", o], cwd=root, which=which)
        if out: raise Violation("output on stdout despite -o: %r" % out)
        with open(o, "rb") as f: return rc, f.read().decode("utf-8", "surrogateescape"), err
    return cli.run(ctx, args, cwd=root, which=which)


LINK = {"plain": "- [%s](%s)", "deep": "    - [%s](%s)", "anchor": "* [%s](%s#sec)", "title": "- [%s](%s \"T\")", "task": "- [ ] [%s](%s)", "text": "See [%s](%s) for more", "two": "[web](http://e.com/a.md) [%s](%s)", "img": "![i](no.png) [%s](%s)", "pad": "- [%s]( %s )"}
comb = st.fixed_dictionaries({
    "t": c10.tree(), "o": st.booleans(), "asan": st.integers(0, 4).map(lambda x: x == 0),
    "args": st.lists(st.one_of(st.integers(0, 4), st.integers(0, 4), st.just("missing"), st.just("summary")), min_size=1, max_size=5),
    "sum": st.lists(st.tuples(st.one_of(st.integers(0, 4), st.just("missing")), st.sampled_from(sorted(LINK))), max_size=5), "crlf": st.booleans()})


def t_combine(case, ctx):
    root = os.path.realpath(os.path.join(ctx.scratch, "comb"))
    t, top = c10.build_tree(case["t"], root)
    files = [i for i, f in enumerate(t["f"]) if "s" in f] or [0]
    pick = lambda k: t["f"][files[k % len(files)]]["p"]
    m = c10.Model(root)

    def content(p, base):
        x = m.read(os.path.join(root, p))
        d = os.path.dirname(p)
        d = base + ("/" + d if d else "")
        return m.expand(x, m.base(d, x), 0)
    lines = ["# Summary", ""]
    chunks_s = []
    for k, form in case["sum"]:
        p = "no.md" if k == "missing" else pick(k)
        lines.append(LINK[form] % ("Title", p))
        if k != "missing": chunks_s.append(p)
    cli.put(os.path.join(root, "book/SUMMARY.md"), ("\r\n" if case["crlf"] else "\n").join(l.replace("](", "](../").replace("](../http", "](http").replace("](../ ", "]( ../") for l in lines) + "\n")
    args, chunks = [], []
    for a in case["args"]:
        if a == "missing": args.append("none.md")
        elif a == "summary":
            args.append("book/SUMMARY.md")
            chunks += [content(p, "book/..") for p in chunks_s]
        else:
            args.append(pick(a)); chunks.append(content(pick(a), "."))
    # raw-include markers name the path as composed by the program
    strip = lambda s: re.sub(r"APEX_RAW_INCLUDE:[^>]*/", "APEX_RAW_INCLUDE:", s)
    os.chdir(root)
    chunks = []
    for a in case["args"]:
        if a == "summary": chunks += [content(p, "book/..") for p in chunks_s]
        elif a != "missing": chunks.append(content(pick(a), "."))
    exp = "\n\n".join(chunks)
    rc, out, err = out_of(ctx, ["--combine"] + args, root, case)
    if len(chunks) > 1: ctx.nt(args)
    ctx.label("summary" if "summary" in case["args"] else "list")
    if rc or strip(out) != strip(exp): raise Violation("--combine %s (rc %d, %s) with SUMMARY %r and files %r\n%r\n---\n%r" % (args, rc, err[:200], lines, {f["p"]: t["_raw"][i] for i, f in enumerate(t["f"])}, out, exp))
    for p in (["none.md"] if "missing" in case["args"] else []):
        if p not in err: raise Violation("no warning names the missing file %s: %r" % (p, err))


hline = st.one_of(st.builds(lambda n, w: "#" * n + " " + w, st.integers(1, 6), gens.word), gens.word, st.sampled_from(["", "#tag", "text # not", " # indented", "#", "##", "## x ##", "é #", "#\tx"]))
merge = st.fixed_dictionaries({
    "files": st.lists(st.tuples(st.lists(hline, max_size=6), st.booleans()), min_size=1, max_size=4), "o": st.booleans(), "asan": st.integers(0, 4).map(lambda x: x == 0),
    "idx": st.lists(st.lists(st.one_of(
        st.tuples(st.just("f"), st.integers(0, 3), st.lists(st.sampled_from(["\t", "    "]), max_size=7).map("".join), st.sampled_from(["", "", " ", "\t", "\r"])),
        st.tuples(st.just("raw"), st.sampled_from(["", "   ", "# comment", "  # f0.md", "\t#f1.md", "\t"])), st.tuples(st.just("missing"))), max_size=6), min_size=1, max_size=2)})


def t_merge(case, ctx):
    root = os.path.join(ctx.scratch, "merge")
    shutil.rmtree(root, ignore_errors=True)
    body = []
    for i, (ls, nl) in enumerate(case["files"]):
        body.append("\n".join(ls) + ("\n" if nl else ""))
        cli.put("%s/p%d/f %d.md" % (root, i % 2, i), body[-1])
    exp, args, n = "", [], 0
    for k, idx in enumerate(case["idx"]):
        lines = []
        for e in idx:
            if e[0] == "raw": lines.append(e[1])
            elif e[0] == "missing": lines.append("nothing.md")
            else:
                i = e[1] % len(body)
                lines.append(e[2] + "../p%d/f %d.md" % (i % 2, i) + e[3])
                lvl = e[2].count("\t") + e[2].count("    ")
                exp += re.sub("(?m)^#", "#" * (lvl + 1), body[i]) + "\n\n"
                n += 1
                if lvl > 1: ctx.label("deep")
        cli.put("%s/i%d/index.txt" % (root, k), "\n".join(lines))
        args.append("i%d/index.txt" % k)
    if n > 1: ctx.nt((case["idx"], body))
    rc, out, err = out_of(ctx, ["--mmd-merge"] + args, root, case)
    if rc or out != exp: raise Violation("--mmd-merge of %r with files %r (rc %d %s)\n%r\n---\n%r" % (case["idx"], body, rc, err[:200], out, exp))


PROPS = [Prop("combine", lambda: comb, t_combine, 1500, 15000), Prop("merge", lambda: merge, t_merge, 1500, 15000)]
