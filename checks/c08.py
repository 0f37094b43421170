"""C08 - metadata variables and transforms."""
import datetime, re, urllib.parse
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, htm

BINS = ["worker"]
RULE = ("Texts with [%key] and [%key:transform(...):...] (known and unknown keys, chains of up to four documented transforms, near misses, unclosed brackets) are substituted and compared byte for byte with a "
        "reference written from the transform documentation; whole documents with front matter are converted and the visible text compared. Non-trivial: at least one variable is substituted.")
ASSUMPTIONS = ["byte-counting transforms (length, slice, substr, truncate, pad) are tried on ASCII values", "a string transform directly after slice of a plain string is not generated"]


class Skip(Exception): pass


def split(v, d):
    parts = [p.strip(" \t\n\r\v\f") for p in v.split(d)]
    parts = [p for p in parts if p]
    return parts or [v]


def s_(f): return lambda v, o: f(v)


def title(v): return "".join(up(c) if i == 0 or v[i - 1].isspace() else low(c) for i, c in enumerate(v))
def up(v): return "".join(c.upper() if c.isascii() else c for c in v)
def low(v): return "".join(c.lower() if c.isascii() else c for c in v)


def slug(v):
    out = ""
    for c in v:
        if c.isascii() and c.isalnum(): out += c.lower()
        elif c in " \t\n_" and not (out.endswith("-")): out += "-"
    return out.rstrip("-")


def replace(v, o):
    if o is None or "," not in o: return v
    a, b = o.split(",", 1)
    if not a: return v
    if a.startswith("regex:"): return re.sub(a[6:], lambda m: b, v)
    return v.replace(a, b)


def substr(v, o):
    n = [int(x) for x in o.split(",")]
    a = n[0]; b = n[1] if len(n) > 1 else len(v)
    if a < 0: a = max(0, len(v) + a)
    if b < 0:
        if b < -len(v): raise Skip
        b = len(v) + b
    return v[a:b] if a <= b else ""


def truncate(v, o):
    n, _, suf = o.partition(",")
    n = max(0, int(n))
    if len(v) <= n: return v
    return v[:n - len(suf) if n > len(suf) else n] + suf


def fmt(v, o):
    m = re.match(r"\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", v)
    if not m: return v
    r = o % float(m.group(0))
    if len(r) > 100: raise Skip
    return r


def escape(v):
    return "".join({"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&#39;"}.get(c, c if ord(c) >= 32 else "&#%d;" % ord(c)) for c in v)


def urldecode(v):
    return urllib.parse.unquote_to_bytes(v.replace("+", " ")).decode("utf-8", "surrogateescape")


def date(v, o):
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)(?: (\d\d):(\d\d)(?::(\d\d))?)?", v)
    if not m:
        if re.match(r"\s*[-+]?\d+-", v): raise Skip
        return v
    try: return datetime.datetime(*[int(x or 0) for x in m.groups()]).strftime(o)
    except ValueError: raise Skip


STR = {
    "upper": s_(up), "lower": s_(low), "title": s_(title), "capitalize": s_(lambda v: up(v[:1]) + v[1:]), "trim": s_(lambda v: v.strip(" \t\n\r\v\f")),
    "slug": s_(slug), "slugify": s_(slug), "replace": replace, "substr": substr, "substring": substr, "truncate": truncate, "reverse": s_(lambda v: v[::-1]),
    "default": lambda v, o: v or (o or ""), "escape": s_(escape), "html_escape": s_(escape), "basename": s_(lambda v: v.rsplit("/", 1)[-1]),
    "urlencode": s_(lambda v: urllib.parse.quote(v, safe="")), "urldecode": s_(urldecode), "prefix": lambda v, o: (o or "") + v, "suffix": lambda v, o: v + (o or ""),
    "remove": lambda v, o: v.replace(o, "") if o else v, "repeat": lambda v, o: v * int(o) if int(o) > 0 else v, "format": fmt, "length": s_(lambda v: str(len(v))),
    "pad": lambda v, o: v.rjust(int(o.split(",")[0]), o.split(",", 1)[1][0] if "," in o else " "), "contains": lambda v, o: "true" if o in v else "false",
    "strftime": date,
}


def chain(v, ts):
    arr, chars = None, False
    for n, o in ts:
        if n in BYTES and not (v + "".join(arr or [])).isascii(): raise Skip
        if n == "split": arr, chars = split(v, o or " "), False; v = arr[0]
        elif n in ("join", "first", "last"):
            if arr is None: arr = split(v, ",")
            v = (o or ", ").join(arr) if n == "join" else (arr[0] if n == "first" else arr[-1]) if arr else ""
            arr = None
        elif n == "slice":
            if arr is None: arr, chars = list(v), True
            a = [int(x) for x in o.split(",")]
            s = min(max(a[0], 0), len(arr)); k = a[1] if len(a) > 1 else -1
            arr = arr[s:] if k < 0 else arr[s:s + k]
            v = "".join(arr)
        else:
            if arr is not None:
                if chars and len(arr) > 1: raise Skip
                v = ", ".join(arr); arr = None
            v = STR[n](v, o) if n in STR else v
        if len(v) > 20000: raise Skip
    return v


BYTES = {"substr", "substring", "truncate", "length", "slice", "pad"}
OPT = {"replace": ["a,b", "an,", "o,00", "regex:[0-9]+,N", "regex:[a-e],_", "regex: +,-", "regex:^a,A", "regex:x*,.", "e,éé", "regex:ab|ano?,<>"], "split": [",", ";", "-", " ", ", ", "/", "::", None],
       "join": ["-", ", ", " and ", None, "|", "; "], "slice": ["0,2", "1", "1,1", "0,99", "5,2", "2,0"], "substr": ["0,5", "2", "-3", "1,-1", "3,2", "0,99", "-4,-1"], "substring": ["0,3", "-2"],
       "truncate": ["5", "8,...", "15,...", "3,..", "0"], "default": ["none", "a b", None], "prefix": ["pre-", "a: ", None], "suffix": ["!", " (end", None], "remove": ["a", "an", "zz", " "], "repeat": ["2", "3", "0", "10"],
       "format": ["%.2f", "$%.2f", "%05.1f", "%.0f%%", "%e", "%g", "%+.3f"], "pad": ["5,0", "8", "12,*", "3,x"], "contains": ["a", "beta", "zz", " "], "strftime": ["%Y", "%B %d, %Y", "%H:%M", "%y/%m/%d", "%b %d %S", "%A"]}
NAMES = sorted(set(STR) | {"split", "join", "first", "last", "slice"})
tr = st.sampled_from(NAMES * 4 + ["nosuch", "Upper"]).flatmap(lambda n: st.tuples(st.just(n), st.sampled_from(OPT[n]) if n in OPT else st.none()))
KEYS = ["title", "My Key", "n", "date", "list", "path", "empty"]
vtok = st.one_of(gens.word, gens.word.map(str.title), st.sampled_from([" ", ", ", ",", "-", "/", "_", "a", "banana", "42", "3.5", ";", "é", "<", "&", '"', "'", ".", "%20", "+", "  ", "x", "::", "%C3%A9", "!"]))
value = st.one_of(st.lists(vtok, max_size=8).map("".join), st.sampled_from(["2024-03-09", "2023-12-25 14:30", "1999-01-02 03:04:05", "1234.5", "-7", "0.5e3", "a, b,c ,d", "one two  three", "/usr/share/doc.txt", "  padded  ", "", "x" * 300, "a,b;c-d e/f"]))


def src(p):
    if p[0] == "t": return p[1]
    return "[%" + p[1] + "".join(":" + n + ("(%s)" % o if o is not None else "") for n, o in p[2]) + "]"


var = st.tuples(st.just("v"), st.sampled_from(KEYS + ["TITLE", "mykey", "my key", "Date", "unknown", "un known"]), st.lists(tr, max_size=4))
plain = st.tuples(st.just("t"), st.one_of(gens.word, st.sampled_from([" ", "\n", "[", "]", "%", "[ %x]", "(a:b)", "[x]", "é", "{%", "[a](b)", "%]", "title", ":upper"])))


def lookup(meta, k):
    for a, v in meta.items():
        if a.lower() == k.lower(): return v
    for a, v in meta.items():
        if re.sub(r"\s", "", a.lower()) == re.sub(r"\s", "", k.lower()): return v


def expect(ps, meta, on=True):
    out, n = "", 0
    for p in ps:
        v = lookup(meta, p[1]) if p[0] == "v" and (on or not p[2]) else None
        if v is None: out += src(p)
        else:
            out += chain(v, p[2]); n += 1
    return out, n


def t_vars(case, ctx):
    ps, meta = case["p"], case["k"]
    t = "".join(src(p) for p in ps) + case["tail"]
    kv = [x for k, v in meta.items() for x in (k, v)]
    try: e, n = expect(ps, meta)
    except (Skip, UnicodeError): return
    # brackets in the plain pieces could pair with those of a variable: keep only texts where they do not
    r = ctx.w.call("meta_vars", "mode=4\nenable_metadata_transforms=1\n", t, *kv)[0]
    if r is None or r.decode("utf-8", "surrogateescape") != e + case["tail"]:
        raise Violation("%r with %r:\n%r\nexpected\n%r" % (t, meta, r, e + case["tail"]))
    if any(p[0] == "v" and p[2] for p in ps):
        r = ctx.w.call("meta_vars", "mode=4\nenable_metadata_transforms=0\n", t, *kv)[0]
        e, _ = expect(ps, meta, False)
        if r.decode("utf-8", "surrogateescape") != e + case["tail"]:
            raise Violation("transforms off: %r with %r:\n%r\nexpected\n%r" % (t, meta, r, e + case["tail"]))
    for p in ps:
        if p[0] == "v":
            for n_, o in p[2]: ctx.label(n_)
    ctx.nt(n > 0)


def t_one(case, ctx):
    """one variable, a long or special value, one or two transforms"""
    t_vars(dict(p=[["t", "a "], ["v", "title", case["ts"]], ["t", " z"]], k={"title": case["v"]}, tail=""), ctx)


# ---- whole documents --------------------------------------------------
dv = st.lists(st.one_of(gens.uword, gens.uword.map(str.title), st.sampled_from(["42", "banana"])), min_size=1, max_size=5).map(" ".join)
SAFE = ["upper", "lower", "title", "capitalize", "trim", "slug", "substr", "truncate", "reverse", "split", "join", "first", "last", "default", "basename", "length", "contains", "repeat", "remove"]
SOPT = dict(OPT, truncate=["5", "9"], join=["-", ", ", " and "], split=[" ", ","], repeat=["2"], remove=["a", "bl"], substr=["0,5", "2", "-3"], default=["none"])
dtr = st.sampled_from(SAFE).flatmap(lambda n: st.tuples(st.just(n), st.sampled_from(SOPT[n]) if n in SOPT else st.none()))


def t_doc(case, ctx):
    meta, lines, mode = case["k"], case["l"], case["m"]
    head = {"yaml": lambda: "---\n" + "".join("%s: %s\n" % kv for kv in meta.items()) + "---\n", "mmd": lambda: "".join("%s: %s\n" % kv for kv in meta.items()) + "\n"}[case["h"]]()
    body, want = "", []
    for pre, k, ts in lines:
        body += "%sso [%%%s%s] on\n\n" % (pre, k, "".join(":" + n + ("(%s)" % o if o is not None else "") for n, o in ts))
        try: v = chain(lookup(meta, k), ts)
        except Skip: return
        want.append("so %s on" % htm.squash(v))
    h = ctx.w.conv(head + body, mode=mode, enable_smart_typography=0, enable_metadata_transforms=1, enable_metadata_variables=1)
    got = [htm.squash(x) for x in re.split(r"</(?:p|h\d|li|blockquote)>", h)]
    got = [htm.squash(htm.text(x)) for x in got]
    got = [x for x in got if x]
    if got != [htm.squash(w) for w in want]:
        raise Violation("%r (mode %d) shows\n%r\nexpected\n%r" % (head + body, mode, got, want))
    ctx.label(case["h"], "mode %d" % mode); ctx.nt(bool(lines))


PROPS = [
    Prop("chains", lambda: st.fixed_dictionaries({"v": value, "ts": st.lists(tr, min_size=1, max_size=4)}), t_one, 16000),
    Prop("texts", lambda: st.fixed_dictionaries({"p": st.lists(var | plain, min_size=1, max_size=8).filter(lambda ps: not any(p[0] == "t" and p[1] == "[" for p in ps)), "k": st.dictionaries(st.sampled_from(KEYS), value, min_size=1, max_size=5),
                                                 "tail": st.sampled_from(["", "", "\n", "[%title", "[%", "[%a:upper(", "x" * 600])}), t_vars, 5000),
    Prop("documents", lambda: st.fixed_dictionaries({"k": st.fixed_dictionaries({"title": dv, "alt key": dv, "n": dv}), "h": st.sampled_from(["yaml", "mmd"]), "m": st.sampled_from([2, 4]),
                                                     "l": st.lists(st.tuples(st.sampled_from(["", "# ", "- ", "> "]), st.sampled_from(["title", "alt key", "n", "Title"]), st.lists(dtr, max_size=3)), min_size=1, max_size=4)}), t_doc, 2000),
]
