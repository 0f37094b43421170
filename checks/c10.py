"""C10 - file includes: what is included is the file, the whole selected part of it, from the right place, and nothing else."""
import os, re, shutil
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, htm, cli

BINS = ["worker", "apex"]
RULE = ("A generated tree of files (Markdown, text, code, CSV/TSV, images; in nested folders; with and without a transclude base) that include one another through every include syntax and every form of address is expanded and compared byte for byte with a "
        "reference expansion; the same document is converted through the library and the program and compared with the conversion of the expanded text. Non-trivial: at least one include that resolves.")
ASSUMPTIONS = ["include syntax is generated outside code or in balanced backtick code", "included front matter is not stripped (current behaviour, not judged)"]
EXT = [".md", ".md", ".md", ".txt", ".py", ".c", ".csv", ".tsv", ".png"]
DIRS = ["", "", "sub", "sub/deep", "other"]
LANG = {"c": "c", "h": "c", "cpp": "cpp", "cc": "cpp", "py": "python", "js": "javascript", "rb": "ruby", "sh": "bash"}
CODE = {"c", "h", "cpp", "py", "js", "java", "swift", "go", "rs", "sh"}


def fence(body):
    n = max([len(m) for m in re.findall("`+", body)] or [0])
    n = 3 if n < 3 else n + 1
    return "`" * (n | 1)


def esc_cell(c):
    return re.sub(r"(\\.)|\|", lambda m: m.group(1) or "\\|", c)


def csv(text, tsv):
    if not text: return None
    d = "\t" if tsv else ","
    rows = [r.split(d) for r in (text[:-1] if text.endswith("\n") else text).split("\n")]
    n = len(rows[0])
    sep, body = ["---"] * n, rows[1:]
    if len(rows) > 1 and len(rows[1]) == n and all(c.strip().lower() in ("left", "right", "center", "auto") for c in rows[1]):
        sep = [{"left": ":---", "right": "---:", "center": ":---:", "auto": "---"}[c.strip().lower()] for c in rows[1]]
        body = rows[2:]
    out = ""
    for r in [rows[0], sep] + body:
        out += "|" + "".join(" " + (esc_cell(r[i]) if i < len(r) else "") + " |" for i in range(n)) + "\n"
    return out


def select(text, a):
    """the documented meaning of an address"""
    kind, x, y, prefix = a
    lines = text.split("\n")
    if lines[-1] == "": lines.pop()
    if kind == "all":
        out = lines
        return "\n".join(prefix + l for l in out) + ("\n" if text.endswith("\n") else "")
    if kind == "line": out = lines[x - 1:x]
    elif kind == "range": out = lines[x - 1:(y - 1 if y is not None else None)]
    else:
        i = next((k for k, l in enumerate(lines) if x in l), None)
        if i is None: return ""
        e = next((k for k in range(i + 1, len(lines)) if y is not None and y in lines[k]), len(lines))
        out = lines[i:e]
    return "".join((prefix or "") + l + "\n" for l in out)


def addr(a):
    if a is None: return ""
    kind, x, y, prefix = a
    if kind == "all": return '[prefix="%s"]' % prefix
    s = {"line": "%s" % x, "range": "%s,%s" % (x, "" if y is None else y), "re": "/%s/,%s" % (x, "" if y is None else "/%s/" % y)}[kind]
    return "[" + s + (';prefix="%s"' % prefix if prefix else "") + "]"


def norm_fences(text):
    """an even fence gets one more backtick"""
    out, cur = [], 0
    for l in text.split("\n"):
        m = re.match("`{3,}", l)
        if m:
            n = len(m.group())
            if cur == 0: cur = n
            elif n == cur: cur = 0
            else: n = -n
            if n > 0 and n % 2 == 0: l = "`" + l
        out.append(l)
    return "\n".join(out)


class Model:
    def __init__(self, root): self.root, self.hits = root, 0

    def read(self, p):
        if not os.path.isfile(p): return None
        with open(p, "rb") as f: return f.read().split(b"\0")[0].decode("utf-8", "surrogateescape")

    def base(self, d, text):
        m = re.match(r"---\ntransclude base: ([^\n]*)\n---\n", text)
        if not m: return d
        return m.group(1) if m.group(1).startswith("/") else d if re.match(r"\.(/|$)", m.group(1)) else d + "/" + m.group(1)

    def expand(self, text, base, depth):
        if depth > 10: return text
        text = norm_fences(text)
        out, pos, code = [], 0, False
        AD = r'(\[[^\]]*\])?'
        while pos < len(text):
            c = text[pos]
            if c == "`": code = not code
            if not code:
                sol = pos == 0 or text[pos - 1] == "\n"
                m = sol and re.compile(r"/([^ \t\n\r]+)").match(text, pos)
                if m:
                    r = self.ia(m.group(1), base, depth)
                    if r is not None: out.append(r); pos = m.end(); continue
                m = re.compile(r"\{\{(.+?)\}\}" + AD, re.S).match(text, pos)
                if m:
                    r = self.md(self.wild(m.group(1), base), m.group(2), depth)
                    if r is not None: out.append(r); pos = m.end(); continue
                m = sol and re.compile(r"<<(?:\[([^\]]+)\]|\(([^)]+)\)|\{([^}]+)\})(?:[ \t]*\[([^\]]*)\])?").match(text, pos)
                if m:
                    a = "[" + m.group(4) + "]" if m.group(4) is not None else None
                    p = os.path.join(base, m.group(1) or m.group(2) or m.group(3))
                    if m.group(1): out.append(self.md(p, a, depth) or "")
                    elif m.group(2): out.append(self.code(p, a) or "")
                    elif self.read(p) is not None: self.hits += 1; out.append("<!--APEX_RAW_INCLUDE:%s-->" % p)
                    pos = m.end(); continue
            out.append(c); pos += 1
        return "".join(out)

    def wild(self, p, base):
        if p.endswith(".*"):
            stem = os.path.join(base, p[:-2])
            for e in (".html", ".md", ".txt", ".tex"):
                if os.path.exists(stem + e): return stem + e
            d, b = os.path.split(stem)
            c = sorted(f for f in (os.listdir(d) if os.path.isdir(d) else []) if f.startswith(b + "."))
            return os.path.join(d, c[0]) if c else os.path.join(base, p)
        return os.path.join(base, p)

    def parse(self, a):
        """the inverse of addr()"""
        m = re.fullmatch(r'\[(?:(\d+)(,(\d*))?|/([^/]*)/,(?:/([^/]*)/)?)?(?:;?prefix="([^"]*)")?\]', a)
        n, comma, e, r1, r2, p = m.groups()
        if n: return ("range", int(n), int(e) if e else None, p) if comma else ("line", int(n), None, p)
        if r1 is not None: return ("re", r1, r2, p)
        return ("all", None, None, p)

    def md(self, p, a, depth):
        t = self.read(p)
        if t is None: return None
        self.hits += 1
        base = self.base(os.path.dirname(p), t)
        if a: t = select(t, self.parse(a))
        if p.lower().endswith((".csv", ".tsv")): t = csv(t, p.lower().endswith(".tsv")) or t
        return self.expand(t, base, depth + 1)

    def code(self, p, a):
        t = self.read(p)
        if t is None: return None
        self.hits += 1
        if a: t = select(t, self.parse(a))
        e = p.rsplit(".", 1)[1] if "." in os.path.basename(p) else ""
        f = fence(t)
        return "\n%s%s\n%s\n%s\n" % (f, LANG.get(e, e), t, f)

    def ia(self, q, base, depth):
        p = os.path.join(base, q)
        t = self.read(p)
        if t is None: return None
        self.hits += 1
        e = p.rsplit(".", 1)[1].lower() if "." in os.path.basename(p) else ""
        if e in ("png", "jpg", "jpeg", "gif", "webp", "svg"): return "![](%s)\n" % q
        if e in ("csv", "tsv"): return csv(t, e == "tsv") or ""
        if e in CODE:
            f = fence(t)
            return "\n%s%s\n%s\n%s\n" % (f, q.rsplit(".", 1)[1], t, f)
        return self.expand(t, self.base(os.path.dirname(p), t), depth + 1)


cellw = st.one_of(gens.word, gens.word, st.sampled_from(["", "left", "right", "center", "auto", "a b"]))


@st.composite
def tree(draw, plain=False):
    n = draw(st.integers(1, 5))
    files = []
    for i in range(n):
        d, e = draw(st.sampled_from(DIRS)), draw(st.sampled_from(EXT if not plain else [".md", ".md", ".txt", ".py", ".csv"]))
        stem = "f%d" % (i if draw(st.booleans()) else draw(st.integers(0, i)))
        p = (d + "/" if d else "") + stem + e
        if any(f["p"] == p for f in files): p = (d + "/" if d else "") + "g%d%s" % (i, e)
        f = {"p": p, "nl": draw(st.integers(0, 4)) > 0}
        if e in (".md", ".txt"):
            f["tb"] = draw(st.sampled_from([None, None, None, "sub", ".", "ABS"])) if not plain else None
        files.append(f)
    for i, f in enumerate(files):
        e = os.path.splitext(f["p"])[1]
        if e in (".md", ".txt"): f["s"] = draw(segs(files, i, plain))
        elif e in (".csv", ".tsv"): f["r"] = draw(st.lists(st.lists(cellw, min_size=1, max_size=4), min_size=0, max_size=5))
        elif e == ".png": f["l"] = ["PNG"]
        else: f["l"] = draw(st.lists(st.one_of(gens.line_of_code, gens.line_of_code, st.sampled_from(["", "```", "x = `y`", "````"])), max_size=8))
    return {"f": files, "top": draw(segs(files, -1, plain))}


gens.line_of_code = st.builds(lambda i, w, v: "    " * i + w + " = " + v, st.integers(0, 2), gens.word, gens.word)
address = st.one_of(
    st.none(), st.none(),
    st.tuples(st.just("range"), st.integers(1, 6), st.one_of(st.none(), st.integers(1, 7)), st.sampled_from([None, None, "> ", "C: "])),
    st.tuples(st.just("line"), st.integers(1, 6), st.none(), st.none()),
    st.tuples(st.just("re"), gens.word, st.one_of(st.none(), gens.word), st.sampled_from([None, "// "])),
    st.tuples(st.just("all"), st.none(), st.none(), st.sampled_from(["> ", "longer prefix "])))


@st.composite
def segs(draw, files, i, plain):
    later = list(range(i + 1, len(files)))
    out = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 9))
        if k < 3 or not later: out.append(["t", draw(st.lists(gens.word, min_size=1, max_size=4).map(" ".join))])
        elif k < 7 or (plain and k < 9):
            a = draw(address)
            if a and a[0] == "range" and a[2] is not None and a[2] < a[1]: a = ("range", a[2], a[1], a[3])
            out.append(["i", draw(st.sampled_from(["{{", "{{", "<<[", "<<(", "/"] + ([] if plain else ["<<{", ".*"]))), draw(st.sampled_from(later)), a])
        elif k == 7: out.append(["m", draw(st.sampled_from(["{{no.md}}", "a {{no/no.md}} b", "/no.md", "/no/such x", "<<[no.md]", "<<(no.py)", "{{}}", "text {{ open", "/ slash", "mid /f0.md line", "mid <<[f0.md]", "<< [f0.md]"]))])
        elif k == 8: out.append(["c", draw(st.sampled_from(["`", "```", "````"])), draw(st.sampled_from(["{{", "<<[", "/", "<<("])), draw(st.sampled_from(later))])
        else: out.append(["b"])
    return out


def directive(root, base, files, kind, j, a):
    p = os.path.relpath(os.path.join(root, files[j]["p"]), base)
    s = addr(a)
    if kind == "{{": return "{{" + p + "}}" + s
    if kind == ".*": return "{{" + os.path.splitext(p)[0] + ".*}}" + s
    if kind == "/": return "/" + p
    return kind + p + {"[": "]", "(": ")", "{": "}"}[kind[2]] + s


def text_of(root, case, i, ss, base):
    files, out = case["f"], []
    for s in ss:
        if s[0] == "t": out.append(s[1])
        elif s[0] == "b": out.append("")
        elif s[0] == "m": out.append(s[1])
        elif s[0] == "c":
            d = directive(root, base, files, s[2], s[3], None)
            out += ["see `" + d + "` here"] if s[1] == "`" else [s[1], d, s[1]]
        else:
            kind, j, a = s[1], s[2], s[3]
            body = case["_raw"].get(j, "")
            if a and kind == ".*" and a[0] == "all": a = None
            if a and (("`" in body and kind != "<<(") or (a[0] == "all" and "\n\n" in "\n" + body)): a = None
            if kind in ("{{", "<<[", ".*") and "`" in body and files[j]["p"].endswith((".py", ".c")): kind = "<<("
            d = directive(root, base, files, kind, j, a)
            out.append("see " + d + " here" if kind == "{{" and j % 2 else d)
    return "\n".join(out) + "\n"


def build_tree(case, root):
    shutil.rmtree(root, ignore_errors=True)
    for d in DIRS: os.makedirs(os.path.join(root, d, "sub"), exist_ok=True)
    case = dict(case); case["_raw"] = {}
    for i in range(len(case["f"]) - 1, -1, -1):
        f = case["f"][i]
        d = os.path.dirname(os.path.join(root, f["p"]))
        if "s" in f:
            tb = f.get("tb"); tb = root + "/other" if tb == "ABS" else tb
            head = "---\ntransclude base: %s\n---\n" % tb if tb else ""
            base = d if not tb else tb if tb[0] == "/" else d if tb[0] == "." else d + "/" + tb
            t = head + text_of(root, case, i, f["s"], base)
            if not f["nl"]: t = t[:-1]
        elif "r" in f:
            t = "".join(("\t" if f["p"].endswith("tsv") else ",").join(r) + "\n" for r in f["r"])
        else: t = "".join(l + "\n" for l in f["l"])
        case["_raw"][i] = t
        cli.put(os.path.join(root, f["p"]), t)
    return case, text_of(root, case, -1, case["top"], root)


def t_expand(case, ctx):
    root = os.path.join(ctx.scratch, "inc")
    case, top = build_tree(case, root)
    m = Model(root)
    exp = m.expand(top, root, 0)
    r = ctx.w.call("includes", top, root)
    got = r[0].decode("utf-8", "surrogateescape")
    if m.hits: ctx.nt(top)
    ctx.label("hits%d" % min(m.hits, 6))
    if got != exp:
        raise Violation("expansion of %r (files %r) differs\n%r\n---\n%r" % (top, {f["p"]: case["_raw"][i] for i, f in enumerate(case["f"])}, got, exp))


def t_conv(case, ctx):
    root = os.path.join(ctx.scratch, "inc")
    case, top = build_tree(case, root)
    m = Model(root)
    lead = "# Top\n\n"
    exp = m.expand(lead + top, root, 0)
    if m.hits: ctx.nt(top)
    cli.put(os.path.join(root, "doc.md"), lead + top)
    ref = ctx.w.conv(exp, 4, enable_file_includes=0)
    got = ctx.w.conv(lead + top, 4, enable_file_includes=1, base_directory=root)
    if htm.norm(got) != htm.norm(ref): raise Violation("conversion of %r differs from that of the expanded text %r\n%s\n---\n%s" % (top, exp, got, ref))
    rc, out, err = cli.run(ctx, [os.path.join("inc", "doc.md")])
    if rc or htm.norm(out) != htm.norm(ref): raise Violation("apex doc.md (rc %d) for %r differs from the conversion of the expanded text\n%s\n---\n%s" % (rc, top, out, ref))
    off = ctx.w.conv(lead + top, 4, enable_file_includes=0, base_directory=root)
    rc, out, err = cli.run(ctx, ["--no-includes", os.path.join("inc", "doc.md")])
    if rc or htm.norm(out) != htm.norm(off): raise Violation("--no-includes differs from the option for %r\n%s\n---\n%s" % (top, out, off))


def t_chain(case, ctx):
    """long chains, cycles and large files"""
    root = os.path.join(ctx.scratch, "chain")
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    n, cyc, size, kind = case["n"], case["cyc"], case["size"], case["k"]
    ctx.nt("chain %d %s %d %s" % (n, cyc, size, kind))
    inc = {"{{": "{{c%d.md}}", "<<[": "<<[c%d.md]", "/": "/c%d.md"}[kind]
    big = ("lorem " * 20 + "\n") * size
    for i in range(n):
        nxt = i + 1 if i + 1 < n else (0 if cyc else None)
        cli.put("%s/c%d.md" % (root, i), "START%d\n" % i + big + (inc % nxt + "\n" if nxt is not None else "") + "END%d\n" % i)
    m = Model(root)
    top = "top\n" + inc % 0 + "\n" + "tail\n"
    exp = m.expand(top, root, 0)
    got = ctx.w.call("includes", top, root)[0].decode()
    if got != exp: raise Violation("chain of %d (cycle %s, %d KB each) through %s: %d bytes instead of %d" % (n, cyc, size * 120 // 1000, kind, len(got), len(exp)))


chain = st.fixed_dictionaries({"n": st.integers(1, 13), "cyc": st.booleans(), "size": st.sampled_from([0, 0, 1, 100, 2000]), "k": st.sampled_from(["{{", "<<[", "/"])})
csvc = st.fixed_dictionaries({"r": st.lists(st.lists(st.one_of(cellw, st.sampled_from(["a|b", "|", "c\\|d", "\\\\|", "||"])), min_size=1, max_size=5), min_size=1, max_size=6), "tsv": st.booleans(), "nl": st.booleans()})


def t_csv(case, ctx):
    t = "\n".join(("\t" if case["tsv"] else ",").join(r) for r in case["r"]) + ("\n" if case["nl"] else "")
    exp = csv(t, case["tsv"])
    r = ctx.w.call("apex_csv_to_table", t, "1" if case["tsv"] else "0")
    got = r[0].decode() if r and r[0] is not None else None
    if len(case["r"]) > 1: ctx.nt(t)
    if exp is not None and got != exp: raise Violation("table of %r\n%s\n---\n%s" % (t, got, exp))


PROPS = [Prop("expand", lambda: tree(), t_expand, 1200, 12000), Prop("convert", lambda: tree(plain=True), t_conv, 250, 2500),
         Prop("chain", lambda: chain, t_chain, 40, 300), Prop("csv", lambda: csvc, t_csv, 500, 5000)]
