"""C27 - plugins run in order, get the text they are promised, and do exactly what they say."""
import json, os, re, shutil
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import cli

BINS = ["apex", "worker"]
RULE = ("Sets of generated plugins (declarative patterns, commands, bundles, broken ones) are laid out in the project, base and user directories and run over generated texts; the output must be that of a reference model which applies them in order to the source and to the HTML the same program gives without plugins, and the JSON each command received must be exact. "
        "The plugin directory, installation and removal are run against stand-ins for curl, git and rm. Non-trivial: at least two plugins take part.")
ASSUMPTIONS = ["patterns are built from pieces without common characters, where POSIX and Python regular expressions agree", "timeouts of plugins are not implemented, as documented (reserved)"]

# ---- declarative patterns
ATOMS = ["a", "[bc]", "(d)", "(ef)", "1", "[0-9]", " ", "(é)", "\\.", "x"]
pat = st.tuples(st.booleans(), st.lists(st.tuples(st.integers(0, len(ATOMS) - 1), st.sampled_from(["", "", "+", "*", "?", "{2}"])), min_size=0, max_size=4, unique_by=lambda x: {5: 4}.get(x[0], x[0])), st.booleans()).filter(lambda p: p[1] or p[0] or p[2])
rep = st.lists(st.sampled_from(["$1", "$0", "$2", "$9", "<b>", "</b>", "Z", "$", "$$", " ", "\\", "é", "&", "$x", "\""]), max_size=4).map("".join)
words = st.lists(st.sampled_from(["a", "b", "c", "d", "ef", "1", "2", "12", " ", " ", "é", ".", "x", "A", "EF", "\n", "g", "aa", "bcb", "\n\n", "$"]), max_size=25).map("".join)


def pattern(p): return ("^" if p[0] else "") + "".join(ATOMS[i] + q for i, q in p[1]) + ("$" if p[2] else "")


def apply(p, r, flags, text):
    py = ("^" if p[0] else "") + "".join(ATOMS[i] + q for i, q in p[1]) + ("" if not p[2] else "$" if "m" in flags else r"\Z")
    rx = re.compile(py, (re.I if "i" in flags else 0) | (re.M if "m" in flags else 0) | re.A)
    return rx.sub(lambda m: re.sub(r"\$([0-9])", lambda d: (m[int(d[1])] or "") if int(d[1]) <= rx.groups else "", r), text)


def dq(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def sq(s): return "'" + s.replace("'", "''") + "'"


HANDLER = """import sys, json, os
d = sys.stdin.buffer.read()
open(os.environ["C27LOG"], "ab").write(json.dumps([d.decode("utf-8", "surrogateescape"), os.getcwd(), os.environ.get("APEX_PLUGIN_DIR"), os.environ.get("APEX_SUPPORT_DIR"), os.environ.get("APEX_FILE_PATH")]).encode() + b"\\n")
t = json.loads(d)["text"]
sys.stdout.buffer.write((t.rstrip("\\n") + "\\n\\n" + sys.argv[1] + "\\n").encode("utf-8", "surrogateescape"))
"""
CMDS = {"ok": "python3 -S -E h.py T{n}", "okdir": "python3 -S -E \"${{APEX_PLUGIN_DIR}}/h.py\" T{n}", "fail": "cat >/dev/null; echo broken; exit 3", "silent": "cat >/dev/null", "noread": "echo fixed T{n}", "missing": "/no/such/command", "big": "cat >/dev/null; head -c 300000 /dev/zero | tr '\\0' 'w'; echo T{n}"}
PLACES = ["proj", "base", "user"]
plug = st.fixed_dictionaries({"id": st.sampled_from(["a", "b", "c", "Zed", "k-1", "é", "x.y"]), "phase": st.sampled_from(["pre_parse", "pre_parse", "post_render", "post_render", "block", "nonsense"]), "prio": st.sampled_from([None, None, 1, 50, 100, 200, -5, 1000]), "kind": st.sampled_from(["re", "re", "re", "re", "ok", "okdir", "fail", "silent", "noread", "missing", "big", "badre", "empty"]),
                              "p": pat.map(lambda p: [p[0], [list(x) for x in p[1]], p[2]]), "r": rep, "f": st.sampled_from(["", "", "i", "m", "im"]), "place": st.sampled_from(PLACES), "form": st.sampled_from(["yml", "yml", "yaml", "flat", "nofront", "bundle"]), "q": st.sampled_from(["dq", "sq"]), "hk": st.sampled_from(["nested", "dot", "under"]), "noid": st.sampled_from([False, False, False, True])})
run_s = st.fixed_dictionaries({"pl": st.lists(plug, min_size=1, max_size=5), "t": words, "long": st.sampled_from([0, 0, 0, 0, 1]), "how": st.sampled_from(["flag", "flag", "flag", "flag", "meta", "off", "metaoff", "none"])})


def fields(p, n):
    q = dq if p["q"] == "dq" else sq
    o = [("phase", p["phase"])]
    if p["prio"] is not None: o.append(("priority", str(p["prio"])))
    if p["kind"] in ("re", "badre"):
        o += [("pattern", q(pattern(p["p"]) if p["kind"] == "re" else "(a")), ("replacement", q(p["r"]))]
        if p["f"]: o.append(("flags", q(p["f"])))
    elif p["kind"] != "empty":
        c = q(CMDS[p["kind"]].format(n=n))
        o.append(("handler", "\n  command: " + c) if p["hk"] == "nested" else ("handler.command" if p["hk"] == "dot" else "handler_command", c))
    return o


def t_run(case, ctx):
    d = os.path.join(ctx.scratch, "c27")
    shutil.rmtree(d, ignore_errors=True)
    root = {"proj": d + "/work/.apex/plugins", "base": d + "/work/docs/.apex/plugins", "user": d + "/cfg/apex/plugins"}
    for r in root.values(): os.makedirs(r)
    # one plugin per id and phase list and place, so that no choice depends on the order of directory entries
    seen, pls = set(), []
    for n, p in enumerate(case["pl"]):
        p = dict(p, n=n)
        if case["how"] == "meta": p["phase"] = p["phase"].replace("pre_parse", "post_render")      # the program writes metadata blocks anew before the conversion
        if p["form"] in ("flat", "bundle"): p["noid"] = False
        p["dir"] = {"é": "e-acute"}.get(p["id"], p["id"]) + "-%d" % n if not p["noid"] else "dir-%d" % n
        pid = p["dir"] if p["noid"] else p["id"]
        key = (pid, p["place"])
        if key in seen: continue
        seen.add(key)
        p["pid"] = pid
        pls.append(p)
    for p in pls:
        f = fields(p, p["n"])
        b = root[p["place"]]
        text = "".join("%s: %s\n" % kv for kv in ([] if p["noid"] else [("id", p["id"])]) + f)
        if p["form"] == "flat":
            cli.put("%s/%s.yml" % (b, p["dir"]), "---\n" + text + "---\n")
            if not os.path.exists(b + "/h.py"): cli.put(b + "/h.py", HANDLER)
            continue
        if p["form"] == "bundle":
            text = "id: bundle%d\ntitle: t\nbundle:\n  - " % p["n"] + text.rstrip("\n").replace("\n", "\n    ") + "\n"
        cli.put("%s/%s/plugin.%s" % (b, p["dir"], "yaml" if p["form"] == "yaml" else "yml"), ("" if p["form"] == "nofront" else "---\n") + text + "---\n")
        cli.put("%s/%s/h.py" % (b, p["dir"]), HANDLER)
    src = {"meta": "---\nplugins: true\n---\n\n", "metaoff": "---\nenable-plugins: true\n---\n\n"}.get(case["how"], "") + "Start " + case["t"] + (" word" * 30000 if case["long"] else "") + " end.\n"
    cli.put(d + "/work/docs/d.md", src)
    log = d + "/log"
    args = {"flag": ["--plugins"], "off": ["--no-plugins"], "metaoff": ["--no-plugins"]}.get(case["how"], [])
    env = {"XDG_CONFIG_HOME": d + "/cfg", "C27LOG": log}
    if case["how"] == "metaoff":       # and the flag wins over metadata both ways
        cli.put(d + "/one/f.md", "---\nplugins: false\n---\n\nx\n")
        cli.put(d + "/one/.apex/plugins/p/plugin.yml", "---\nid: p\nphase: post_render\npattern: 'x'\nreplacement: 'yy'\n---\n")
        rc, out, err = cli.run(ctx, ["--plugins", "f.md"], cwd=d + "/one", env={"XDG_CONFIG_HOME": d + "/none"})
        if "yy" not in out: raise Violation("--plugins does not win over plugins: false: %r" % out)
    rc, out, err = cli.run(ctx, args + ["docs/d.md"], cwd=d + "/work", env=env)
    if rc: raise Violation("exit code %d: %s" % (rc, err))
    # model
    on = case["how"] in ("flag", "meta")
    lists = {"pre_parse": [], "post_render": []}
    for place in PLACES:
        for p in pls:
            if p["place"] != place or p["form"] == "nofront" or p["phase"] not in lists or p["kind"] == "badre": continue
            if any(q["pid"] == p["pid"] for q in lists[p["phase"]]): continue
            lists[p["phase"]].append(p)
    reqs = []

    def phase(name, text):
        for p in sorted(lists[name], key=lambda p: (p["prio"] if p["prio"] is not None else 100, p["pid"].encode())):
            if p["kind"] == "re": text = apply(p["p"], p["r"], p["f"], text)
            elif p["kind"] in ("ok", "okdir"):
                reqs.append((p, name, text))
                text = text.rstrip("\n") + "\n\nT%d\n" % p["n"]
            elif p["kind"] == "noread": text = "fixed T%d\n" % p["n"]
            elif p["kind"] == "big": text = "w" * 300000 + "T%d\n" % p["n"]
        return text
    live = sum(len(x) for x in lists.values())
    if on and live > 1: ctx.nt(json.dumps([[p["pid"], p["phase"], p["kind"]] for p in pls])[:300])
    ctx.label("%d plugins" % live if on else "off")
    text = phase("pre_parse", src) if on else src
    cli.put(d + "/work/docs/e.md", text)
    rc, plain, err = cli.run(ctx, ["--no-plugins", "docs/e.md"], cwd=d + "/work", env=env)
    if rc: raise Violation("exit code %d without plugins: %s" % (rc, err))
    want = phase("post_render", plain) if on else plain
    # the last newline of the output is not the plugins'
    what = "plugins %s\nsource %r" % (json.dumps(pls, ensure_ascii=False), src[:600])
    if out.rstrip("\n") != want.rstrip("\n"): raise Violation("%s\ngave %r\nexpected %r" % (what, out[-3000:], want[-3000:]))
    got = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
    if len(got) != len(reqs): raise Violation("%s\n%d commands ran, expected %d" % (what, len(got), len(reqs)))
    for (raw, cwd, pd, sd, fp), (p, name, t) in zip(got, reqs):
        r = json.loads(raw)
        home = root[p["place"]] + ("" if p["form"] == "flat" else "/" + p["dir"])
        if name == "post_render": t, r["text"] = t.rstrip("\n"), r.get("text", "").rstrip("\n")
        if r != {"version": 1, "plugin_id": p["pid"], "phase": name, "text": t}: raise Violation("%s\nplugin %s got the request %r\nexpected the text %r" % (what, p["pid"], raw[:2000], t[:2000]))
        if not os.path.samefile(cwd, home) or not os.path.samefile(pd, home): raise Violation("%s\nplugin %s ran in %r with APEX_PLUGIN_DIR %r, not in %r" % (what, p["pid"], cwd, pd, home))
        if not sd or not os.path.isdir(sd) or not sd.startswith(d + "/cfg/apex/support"): raise Violation("%s\nplugin %s: APEX_SUPPORT_DIR is %r" % (what, p["pid"], sd))
        if fp != "docs/d.md": raise Violation("%s\nplugin %s: APEX_FILE_PATH is %r" % (what, p["pid"], fp))


# ---- patterns alone, on longer texts
re_s = st.fixed_dictionaries({"p": pat.map(lambda p: [p[0], [list(x) for x in p[1]], p[2]]), "r": rep, "f": st.sampled_from(["", "i", "m", "im"]), "t": st.lists(words, max_size=4).map("\n".join)})


def t_re(case, ctx):
    d = os.path.join(ctx.scratch, "c27r")
    shutil.rmtree(d, ignore_errors=True)
    cli.put(d + "/.apex/plugins/p/plugin.yml", "---\nid: p\nphase: pre_parse\npattern: %s\nreplacement: %s\nflags: %s\n---\n" % (dq(pattern(case["p"])), dq(case["r"]), dq(case["f"])))
    log = d + "/log"
    cli.put(d + "/.apex/plugins/q/plugin.yml", "---\nid: q\nphase: pre_parse\nhandler.command: \"cat > '%s'\"\n---\n" % log)
    rc, out, err = cli.run(ctx, ["--plugins"], stdin=case["t"] + "\n", cwd=d, env={"XDG_CONFIG_HOME": d + "/cfg"})
    if rc: raise Violation("exit code %d: %s" % (rc, err))
    got = json.load(open(log))["text"]
    want = apply(case["p"], case["r"], case["f"], case["t"] + "\n")
    if want != case["t"] + "\n": ctx.nt(pattern(case["p"]))
    if got != want: raise Violation("pattern %r replacement %r flags %r\ntext %r\nbecame %r\nexpected %r" % (pattern(case["p"]), case["r"], case["f"], case["t"] + "\n", got, want))


# ---- directory, installation, removal
val = st.one_of(st.sampled_from(["Title", "a {b} c", "say \"id\": \"x\"", "back\\slash", "é ü", "tab\there", "[x]", "}", "{", "\"repo\": \"evil\"", "a, b", "😀", "path/to", ""]), st.text("ab{}[]\",:\\/é ", max_size=12))
entry = st.fixed_dictionaries({"id": st.sampled_from(["kbd", "two", "x", "long-plugin-identifier-here", "é"]), "repo": st.sampled_from(["https://e.com/r.git", "REPO"])}, optional={"title": val, "author": val, "description": val, "homepage": val, "extra": st.just({"id": "inner", "repo": "inner"}), "tags": st.just(["id", "a]b"])})
dir_s = st.fixed_dictionaries({"e": st.lists(st.one_of(entry, entry, st.fixed_dictionaries({"id": st.just("norepo")}), st.fixed_dictionaries({"repo": st.just("noid")})), max_size=5), "ind": st.sampled_from([None, 1, 2]), "asc": st.booleans(), "order": st.permutations(["id", "repo", "title", "author", "description", "homepage", "extra", "tags"]), "inst": st.lists(st.sampled_from(["kbd", "two", "zz"]), max_size=2, unique=True), "f": st.booleans()})
SH = "#!/bin/sh\n"


def tools(d):
    b = d + "/bin"
    for name, text in {"curl": 'echo "$*" >> "$C27/curl"; cat "$C27/dir.json"\n', "git": 'if [ "$1" = clone ]; then echo "$*" >> "$C27/git"; for x; do last="$x"; done; cp -r "$C27/repo" "$last"; else exit 128; fi\n', "rm": 'for x; do echo "$x" >> "$C27/rm"; done\n', "rmdir": 'for x; do echo "$x" >> "$C27/rm"; done\n'}.items():
        cli.put(b + "/" + name, SH + text)
        os.chmod(b + "/" + name, 0o755)
    return {"PATH": b + ":" + os.environ["PATH"], "C27": d, "HOME": d + "/home", "XDG_CONFIG_HOME": d + "/cfg"}


def t_dir(case, ctx):
    d = os.path.join(ctx.scratch, "c27d")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/work")
    env = tools(d)
    noun = "filters" if case["f"] else "plugins"
    es = [{k: e[k] for k in case["order"] if k in e} for e in case["e"]]
    cli.put(d + "/dir.json", json.dumps({"version": 2, noun: es, "after": [{"id": "no", "repo": "no"}]}, indent=case["ind"], ensure_ascii=case["asc"]))
    for i in case["inst"]:
        if case["f"]: os.makedirs(d + "/cfg/apex/filters/" + i)
        else: cli.put(d + "/cfg/apex/plugins/%s/plugin.yml" % i, "---\nid: %s\ntitle: T %s\nphase: pre_parse\n---\n" % (i, i))
    rc, out, err = cli.run(ctx, ["--list-" + noun], cwd=d + "/work", env=env)
    avail = out.partition("## Available ")[2].partition("\n")[2]
    want = ""
    for e in es:
        if "id" not in e or "repo" not in e or e["id"] in case["inst"]: continue
        t = e.get("title", e["id"])
        # column width counts bytes
        want += e["id"] + " " * max(0, 20 - len(e["id"].encode())) + " - " + t + ("  (author: %s)" % e["author"] if e.get("author") else "") + "\n"
        if e.get("description"): want += "    %s\n" % e["description"]
        want += "    homepage: %s\n" % e["homepage"] if e.get("homepage") else "    repo: %s\n" % e["repo"]
    if len([e for e in es if "id" in e and "repo" in e]) > 1: ctx.nt(json.dumps(es)[:300])
    if rc or avail.strip("\n") != want.strip("\n"): raise Violation("directory %s\ninstalled %r\nexit code %d, listed %r\nexpected %r" % (open(d + "/dir.json").read(), case["inst"], rc, avail, want))
    shown = out.partition("## Available ")[0]
    for i in case["inst"]:
        if i not in shown: raise Violation("installed %s is not listed: %r" % (i, out))


ID = st.sampled_from(["kbd", "two", "", ".", "..", "../x", "../../../keep", "kbd/..", "/", "a/b", "kbd/", "nope", "$(touch x)", "`touch x`", "k\"; touch x; \"", "sp ace"])
un_s = st.fixed_dictionaries({"id": ID, "ans": st.sampled_from(["y\n", "y\n", "Y\n", "n\n", "", "\n", "no\n", "x"]), "f": st.booleans()})


def t_un(case, ctx):
    d = os.path.join(ctx.scratch, "c27u")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/work")
    env = tools(d)
    noun = "filter" if case["f"] else "plugin"
    base = "%s/cfg/apex/%ss" % (d, noun)
    for i in ["kbd", "two", "sp ace", "$(touch x)", "`touch x`"]: cli.put("%s/%s/plugin.yml" % (base, i), "---\nid: x\nphase: pre_parse\n---\n")
    for p in ("/cfg/apex/x/f", "/cfg/apex/support/f", "/keep/f"): cli.put(d + p, "x")
    before = sorted(os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs if f != "rm")
    rc, out, err = cli.run(ctx, ["--uninstall-" + noun, case["id"]], stdin=case["ans"], cwd=d + "/work", env=env)
    after = sorted(os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs if f != "rm")
    rm = [x for x in open(d + "/rm").read().split("\n") if x and not x.startswith("-")] if os.path.exists(d + "/rm") else []
    own = os.path.join(base, case["id"])
    ok = case["id"] in ("kbd", "two", "sp ace") and case["ans"][:1] in ("y", "Y")
    gone = [f for f in before if f not in after]
    made = [f for f in after if f not in before]
    if made: raise Violation("--uninstall-%s %r created %r" % (noun, case["id"], made))
    if rm or gone: ctx.nt(repr(case))
    bad = [x for x in rm + gone if not (ok and (os.path.normpath(x) == own or x.startswith(own + "/")))]
    if bad: raise Violation("--uninstall-%s %r, answered %r, removes %r" % (noun, case["id"], case["ans"], bad))
    if ok and not (rm or gone) or (rc == 0) != ok: raise Violation("--uninstall-%s %r, answered %r: exit code %d, removed %r\n%s" % (noun, case["id"], case["ans"], rc, rm + gone, err))


in_s = st.fixed_dictionaries({"id": st.sampled_from(["kbd", "two", "nope", "user/repo", "https://e.com/r.git", "https://github.com/u/r", "git@github.com:u/r", "a/b\"; touch x; \"", "a/$(touch x)", "..", "kbd"]), "ans": st.sampled_from(["y\n", "n\n", ""]), "mid": st.sampled_from(["kbd", "new", "../../keep2", "..", "a/b", None, "k\"x"]), "have": st.booleans(), "hook": st.booleans()})


def t_in(case, ctx):
    d = os.path.join(ctx.scratch, "c27i")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/work")
    env = tools(d)
    base = d + "/cfg/apex/plugins"
    cli.put(d + "/dir.json", json.dumps({"plugins": [{"id": "kbd", "repo": "https://e.com/kbd.git"}, {"id": "two", "repo": "https://e.com/two.git"}, {"id": "..", "repo": "https://e.com/evil.git"}]}))
    cli.put(d + "/repo/plugin.yml", "---\n%sphase: pre_parse\n%s---\n" % ("id: %s\n" % (sq(case["mid"]) if '"' in case["mid"] else case["mid"]) if case["mid"] else "", "post_install: 'pwd > hook.out'\n" if case["hook"] else ""))
    cli.put(d + "/cfg/apex/keep", "x")
    if case["have"]: cli.put(base + "/kbd/old", "x")
    walk = lambda: sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs if f not in ("curl", "git", "rm"))
    before = walk()
    url = "/" in case["id"] or "@" in case["id"]
    rc, out, err = cli.run(ctx, ["--install-plugin", case["id"]], stdin=case["ans"], cwd=d + "/work", env=env)
    new = [f for f in walk() if f not in before and "/.apex_install_" not in f]     # rm is a stand-in: temporary clones stay
    git = open(d + "/git").read() if os.path.exists(d + "/git") else ""
    final = case["id"] if case["id"] in ("kbd", "two") else case["mid"] if url and case["ans"] == "y\n" and "touch" not in case["id"] else None
    if url and final is None and case["ans"] == "y\n" and case["mid"] is None and "touch" not in case["id"]: return      # name taken from the address
    if final and not re.fullmatch(r"[a-z]+", final): final = None
    if final == "kbd" and case["have"]: final = None
    ctx.nt(repr(case))
    want = [] if not final else sorted(["cfg/apex/plugins/%s/plugin.yml" % final] + (["cfg/apex/plugins/%s/hook.out" % final] if case["hook"] else []))
    if new != want or (rc == 0) != bool(final): raise Violation("--install-plugin %r, answered %r, manifest id %r: exit code %d, new files %r, expected %r\n%s" % (case["id"], case["ans"], case["mid"], rc, new, want, err))
    if final and "/" not in case["id"] and "https://e.com/%s.git" % case["id"] not in git: raise Violation("--install-plugin %r cloned %r" % (case["id"], git))
    if final and case["id"] in ("user/repo", "https://github.com/u/r", "git@github.com:u/r") and {"user/repo": "https://github.com/user/repo.git"}.get(case["id"], case["id"] + ".git") not in git: raise Violation("--install-plugin %r cloned %r" % (case["id"], git))


PROPS = [Prop("plugins", lambda: run_s, t_run, 700, 10000), Prop("patterns", lambda: re_s, t_re, 800, 15000), Prop("directory", lambda: dir_s, t_dir, 400, 8000), Prop("uninstall", lambda: un_s, t_un, 150, 1000), Prop("install", lambda: in_s, t_in, 200, 2000)]
