"""C30 - attribute lists give exactly the written attributes to exactly the element they follow."""
import re
from hypothesis import strategies as st
from lib import htm
from lib.runner import Prop
from lib.worker import Violation

BINS = ["worker"]
RULE = ("Documents of paragraphs, headings, lists, quotes, tables and code with links, images, emphasis, strong and code spans, all texts different or all the same, some followed by an attribute list (Kramdown or Pandoc style, id, classes, quoted and bare values with special characters, references to attribute list definitions with further attributes); "
        "the parsed output must be the tree of the document with exactly the attributes of the model on exactly these elements. Non-trivial: at least one attribute list and one element of the same kind without one.")
ASSUMPTIONS = ["no dollar signs (formulas), backticks or Liquid tags in values", "values on inserted text and bracketed spans hold no marks of other syntaxes", "inline attribute lists stand in paragraphs, as documented"]
VAL = ["q<" * 300, "x", "a b", "x & y", "it's", "1.5", "a/b", "x=y", ".c", "#d", "a > b", "x <b> y", "é", "he said \"hi\"", "50%", "[z]", "a:b", "https://e.com/a_b_c?x=y", "m@e.com", "*b* **c**", "_u_", "a^b^ ~c~", "==h== ++i++", ":smile:", "a}b{c", "{++a++}", "{.z}", "[a](b)", "[^1]", "a -- b...", "color: red; top: 1px", "", "x" * 300 + " <y>" * 50]
kv = st.dictionaries(st.sampled_from(["data-a", "title", "lang", "rel", "data-b"]), st.sampled_from(VAL), max_size=2)
attr = st.fixed_dictionaries({"id": st.one_of(st.none(), st.none(), st.sampled_from(["one", "two-b", "x_3"])), "cls": st.lists(st.sampled_from(["c1", "c-2", "Warn", "c_3"]), max_size=3, unique=True), "kv": kv, "o": st.integers(0, 5), "k": st.integers(0, 2), "j": st.booleans(), "ref": st.sampled_from([None, None, None, None, "ra", "rb"])})
mattr = st.one_of(st.none(), attr)
inline = st.lists(st.tuples(st.sampled_from(["w", "w", "w", "link", "img", "em", "strong", "code", "nest", "ins", "span"]), mattr, mattr), min_size=1, max_size=4)
block = st.tuples(st.sampled_from(["p", "p", "p", "h", "hn", "ul", "ol", "quote", "table", "code"]), mattr, st.lists(inline, min_size=1, max_size=3), st.integers(1, 6))
case_s = st.fixed_dictionaries({"b": st.lists(block, min_size=1, max_size=5), "ald": st.fixed_dictionaries({"ra": attr, "rb": attr}), "mode": st.sampled_from([3, 4, 4]), "pos": st.integers(0, 1), "same": st.booleans()})


def norm(a, ald=None):
    """attributes as the element should have them"""
    if not a: return {}
    i, c, v = a["id"], list(a["cls"]), dict(a["kv"])
    if a.get("ref") and ald:
        r = ald[a["ref"]]
        i = i or r["id"]; c = list(r["cls"]) + [x for x in c]; v = {**r["kv"], **v}
    d = dict(v)
    if i: d["id"] = i
    if c: d["class"] = " ".join(c)
    return d


def q(v, k):
    if k == 0 and re.fullmatch(r"[\w./:-]+", v) and v.isascii() and not v.startswith("."): return v
    if k == 1 and "'" not in v: return "'%s'" % v
    return '"%s"' % v.replace('"', '\\"')


def lst(a, ref=True):
    parts = (["#" + a["id"]] if a["id"] else []), ["." + c for c in a["cls"]], ["%s=%s" % (k, q(v, (a["o"] + n) % 3)) for n, (k, v) in enumerate(a["kv"].items())]
    o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][a["o"]]
    l = [x for n in o for x in parts[n]]
    if ref and a["ref"]: l = [a["ref"]] + l
    return re.sub(r"(?<=[\w-]) (?=[#.])", "", " ".join(l[:4])) if a["j"] and not a["kv"] and not a["ref"] else " ".join(l)


def braces(a):
    s = lst(a)
    if not s: return ""
    if a["k"] == 2 and not a["ref"] and not re.match(r"[\w-]+=", s): return "{%s}" % s
    return ("{: %s}" if a["k"] else "{:%s}") % s


class N:
    def __init__(s, same): s.n, s.same = 0, same
    def __call__(s): s.n += 1; return "wx" if s.same else "w%dx" % s.n


def inl(items, w, ald, mode):
    S, T = [], []
    for k, a, b in items:
        x = w()
        if k in ("ins", "span") and (mode != 4 or not (a and braces(a)) or a["ref"] or any(not re.fullmatch(r"[a-z0-9 .]+", v) for v in a["kv"].values())): k = "em"
        A = norm(a, ald) if a and braces(a) else {}
        br = braces(a) if a else ""
        if k == "w": S.append(x); T.append([x])
        elif k == "em": S.append("*%s*%s" % (x, br)); T.append([("s", "em", A), x, ("e", "em")])
        elif k == "strong": S.append("**%s**%s" % (x, br)); T.append([("s", "strong", A), x, ("e", "strong")])
        elif k == "code": S.append("`%s`%s" % (x, br)); T.append([("s", "code", A), x, ("e", "code")])
        elif k == "ins": S.append("++%s++%s" % (x, br)); T.append([("s", "ins", A), x, ("e", "ins")])
        elif k == "span": S.append("[%s]%s" % (x, br)); T.append([("s", "span", A), x, ("e", "span")])
        elif k == "link": S.append("[%s](/u%s)%s" % (x, x, br)); T.append([("s", "a", {"href": "/u" + x, **A}), x, ("e", "a")])
        elif k == "img": S.append("![%s](%s.png)%s" % (x, x, br)); T.append([("s", "img", {"src": x + ".png", "alt": x, **A})])
        else:
            y = w(); B = norm(b, ald) if b and braces(b) else {}
            S.append("**%s *%s*%s t**%s" % (x, y, braces(b) if b else "", br)); T.append([("s", "strong", A), x + " ", ("s", "em", B), y, ("e", "em"), " t", ("e", "strong")])
    t = []
    for n, l in enumerate(T):
        if n: t.append(" ")
        t += l
    return " ".join(S), t


def flat(t):
    out = []
    for x in t:
        if isinstance(x, str):
            if out and isinstance(out[-1], str): out[-1] += x
            else: out.append(x)
        else: out.append(x)
    return [y for y in (x.strip() if isinstance(x, str) else (x[0], x[1], sorted(x[2].items())) if x[0] == "s" else x for x in out) if y != ""]


def parse(h):
    t = [x[1] if x[0] == "t" else (x[0], x[1], {k: (" ".join(v.split()) if k == "class" and v else v) for k, v in x[2].items()}) if x[0] == "s" else x for x in htm.tokens(h)]
    return flat([re.sub(r"\s+", " ", x) if isinstance(x, str) else x for x in t])


def t_doc(case, ctx):
    w, ald, S, T = N(case["same"]), case["ald"], [], []
    used = any(x and x.get("ref") for b in case["b"] for x in [b[1]] + [y for it in b[2] for z in it for y in z[1:]])
    defs = "\n".join("{:%s: %s}" % (k, lst(a, False) or ".dflt") for k, a in ald.items())
    ald = {k: (a if lst(a, False) else dict(a, cls=["dflt"])) for k, a in ald.items()}
    S.append("Start"); T += [("s", "p", {}), "Start", ("e", "p")]
    for k, a, items, n in case["b"]:
        if k in ("h", "hn"): items = [[(x, None, None) for x, y, z in i] for i in items]      # inline lists are documented for paragraphs
        br = braces(a) if a else ""
        A = norm(a, ald) if br else {}
        if k in ("p", "h", "hn"):
            s, t = inl(items[0], w, ald, case["mode"])
            if k == "p": s = "Text %s end." % s if n % 2 else s + " end."; t = (["Text "] if n % 2 else []) + t + [" end."]; S.append(s + ("\n" + br if br else "")); tag = "p"
            elif k == "h": S.append("#" * n + " H " + s + " g" + (" " + br if br else "")); t = ["H "] + t + [" g"]; tag = "h%d" % n
            else: S.append("#" * n + " H " + s + " g" + ("\n" + br if br else "")); t = ["H "] + t + [" g"]; tag = "h%d" % n
            T += [("s", tag, A)] + t + [("e", tag)]
        elif k in ("ul", "ol"):
            R = [inl(i, w, ald, case["mode"]) for i in items]
            S.append("\n".join(("- " if k == "ul" else "%d. " % (j + 1)) + "i " + s for j, (s, t) in enumerate(R)) + ("\n" + br if br else ""))
            T += [("s", k, A)] + [x for s, t in R for x in [("s", "li", {}), "i "] + t + [("e", "li")]] + [("e", k)]
            S.append("After"); T += [("s", "p", {}), "After", ("e", "p")]
        elif k == "quote":
            s, t = inl(items[0], w, ald, case["mode"])
            S.append("> q " + s + ("\n" + br if br else "")); T += [("s", "blockquote", A), ("s", "p", {}), "q "] + t + [("e", "p"), ("e", "blockquote")]
        elif k == "table":
            x, y, z = w(), w(), w()
            S.append("| %s | b |\n|---|---|\n| %s | %s |" % (x, y, z) + ("\n" + br if br else ""))
            T += [("s", "table", A), ("s", "thead", {}), ("s", "tr", {}), ("s", "th", {}), x, ("e", "th"), ("s", "th", {}), "b", ("e", "th"), ("e", "tr"), ("e", "thead"), ("s", "tbody", {}), ("s", "tr", {}), ("s", "td", {}), y, ("e", "td"), ("s", "td", {}), z, ("e", "td"), ("e", "tr"), ("e", "tbody"), ("e", "table")]
        else:
            x = w(); S.append("```\n%s {: .no}\n```" % x); T += [("s", "pre", {}), ("s", "code", {}), x + " {: .no}", ("e", "code"), ("e", "pre")]
    S.append("End"); T += [("s", "p", {}), "End", ("e", "p")]
    text = "\n\n".join(S) + "\n"
    if used: text = defs + "\n\n" + text if case["pos"] else text + "\n" + defs + "\n"
    got = ctx.w.conv(text, mode=case["mode"], enable_smart_typography=0, generate_header_ids=0, enable_image_captions=0)
    a, b = parse(got), flat(T)
    if a != b:
        i = next((n for n, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation("attributes are not those written: from %s instead of %s\n%s\n--- output\n%s" % (a[i:i + 2], b[i:i + 2], text, got))
    ctx.nt("{" in text and len(case["b"]) > 1)


PROPS = [Prop("documents", lambda: case_s, t_doc, 4000, 60000)]
