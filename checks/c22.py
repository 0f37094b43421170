"""C22 - tables: every kind of table syntax gives exactly the table it describes, and only tables do."""
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, htm

BINS = ["worker"]
RULE = ("(doc) documents of regular, relaxed, headerless and CSV/TSV tables (alignment, outer pipes or not, escaped pipes, inline markup, short rows, empty cells, column and row spans, footers, row-header columns, captions) between paragraphs, lists, quotes and code blocks full of pipes; the tables "
        "of the HTML, read into sections, rows and cells, are compared with a model and the other blocks with their text. (inline) the CSV/TSV rewriting is compared with a constructive model over table fences, markers, other fences and near misses. Non-trivial: at least one table.")
ASSUMPTIONS = ["cells do not begin or end with a colon (per-cell alignment)", "rows consisting only of dashes are separators"]

# ---------------------------------------------------------------- documents
ctext = st.one_of(gens.word, gens.word, st.sampled_from(["*em*", "**st**", "`co`", "a\\|b", "[ln](u)", "x y", "é", "1", "12.5", "`a\\|b`", "(q)", "a_b", "50%", "x ^^ y", "p << q", "=", "a - b"]))
SHOW = {"*em*": "em", "**st**": "st", "`co`": "co", "a\\|b": "a|b", "[ln](u)": "ln", "`a\\|b`": "a|b"}
ncell = st.one_of(ctext, ctext, ctext, ctext, st.just(""))
ALIGN = {"---": None, ":--": "left", "--:": "right", ":-:": "center", "-----": None, ":---": "left"}


@st.composite
def regular(draw):
    n = draw(st.integers(1, 5))
    head = draw(st.lists(ctext, min_size=n, max_size=n))
    if n > 1 and draw(st.integers(0, 5)) == 0: head[0] = ""
    al = draw(st.lists(st.sampled_from(list(ALIGN)), min_size=n, max_size=n))
    rows = draw(st.lists(st.lists(ncell, min_size=n, max_size=n), min_size=1, max_size=5))
    feat = draw(st.sampled_from(["", "", "col", "row", "foot", "short", "hcol"]))
    foot = None
    if feat == "foot":
        foot = draw(st.lists(st.lists(ncell, min_size=n, max_size=n), min_size=1, max_size=2))
    span = [draw(st.integers(0, 4)) for _ in rows] if feat in ("col", "row") else None
    outer = draw(st.sampled_from([3, 3, 3, 0, 1, 2])) if n > 1 and feat not in ("col", "hcol") else 3
    return {"k": "regular", "n": n, "head": head, "al": al, "rows": rows, "feat": feat, "foot": foot, "span": span, "outer": outer, "ind": draw(st.sampled_from(["", "", " ", "   "])),
            "cap": draw(st.sampled_from([None, None, None, "\n\n[Caption here]", "\n[Caption here]", "\nTable: Caption here", "\n\nTable: Caption here", "\n: Caption here", "\n\n: Caption here"]))}


@st.composite
def relaxed(draw):
    n = draw(st.integers(2, 4))
    return {"k": "relaxed", "n": n, "rows": draw(st.lists(st.lists(ctext, min_size=n, max_size=n), min_size=2, max_size=5)), "outer": draw(st.sampled_from([0, 0, 3]))}


@st.composite
def headerless(draw):
    n = draw(st.integers(2, 4))
    return {"k": "headerless", "n": n, "al": draw(st.lists(st.sampled_from(list(ALIGN)), min_size=n, max_size=n)), "rows": draw(st.lists(st.lists(ncell, min_size=n, max_size=n).filter(any), min_size=1, max_size=4)), "outer": draw(st.sampled_from([0, 3, 3]))}


csvcell = st.one_of(gens.word, gens.word, st.sampled_from(["*em*", "**st**", "`co`", "a|b", "x y", "12.5", "é", ""]))


@st.composite
def csvt(draw):
    n = draw(st.integers(2, 4))
    return {"k": "csv", "n": n, "head": draw(st.lists(gens.word, min_size=n, max_size=n)), "rows": draw(st.lists(st.lists(csvcell, min_size=n, max_size=n).filter(lambda r: any(r)), min_size=1, max_size=4)), "tab": draw(st.booleans()), "mark": draw(st.booleans()),
            "al": draw(st.one_of(st.none(), st.lists(st.sampled_from(["left", "RIGHT", "Center", "auto"]), min_size=n, max_size=n)))}


pw = st.lists(gens.word, min_size=1, max_size=3).map(" ".join)
other = st.one_of(st.tuples(st.just("p"), pw), st.tuples(st.just("fence"), pw), st.tuples(st.just("indent"), pw), st.tuples(st.just("list"), pw), st.tuples(st.just("quote"), pw), st.tuples(st.just("olist"), pw), st.tuples(st.just("head"), pw), st.tuples(st.just("span"), pw), st.tuples(st.just("tilde"), pw))
docs = st.fixed_dictionaries({"mode": st.sampled_from([2, 3, 4, 4]), "nl": st.booleans(),
                              "b": st.lists(st.one_of(other, regular(), regular(), relaxed(), headerless(), csvt()), min_size=1, max_size=5)})


def row(cells, outer):
    return ("| " if outer & 1 else "") + " | ".join(c if c else " " for c in cells) + (" |" if outer & 2 else "")


def rowok(cells, outer):
    """a row the text of which is a row of the table: with pipes at the empty ends, and not taken for something else"""
    return (outer & 1 or cells[0]) and (outer & 2 or cells[-1])


def show(c):
    return SHOW.get(c, c)


def render(t, mode):
    """(source, model) of a table; model: list of (section, [(tag, colspan, rowspan, align, text)])"""
    n, outer = t["n"], t.get("outer", 3)
    al = [ALIGN[a] for a in t["al"]] if t["k"] in ("regular", "headerless") else [None] * n
    lines, model = [], []
    for r in [t.get("head")] + t["rows"] + (t.get("foot") or []):
        if r is not None and not rowok(r, outer): outer = 3
    sep = lambda: ("|" if outer & 1 else "") + "|".join(t["al"]) + ("|" if outer & 2 else "")
    if t["k"] == "csv":
        d = "\t" if t["tab"] else ","
        if t["tab"]: t = dict(t, head=[t["head"][0] + ", x"] + t["head"][1:], rows=[[c.replace("x y", "x, y") for c in r] for r in t["rows"]])
        body = [d.join(t["head"])] + ([d.join(t["al"])] if t["al"] else []) + [d.join(r) for r in t["rows"]]
        src = ("<!--TABLE-->\n" + "\n".join(body)) if t["mark"] else "```table\n" + "\n".join(body) + "\n```"
        al = [{"left": "left", "right": "right", "center": "center", "auto": None}[a.lower()] for a in t["al"]] if t["al"] else al
        model.append(("thead", [("th", 1, 1, al[i], show(c)) for i, c in enumerate(t["head"])]))
        for r in t["rows"]: model.append(("tbody", [("td", 1, 1, al[i], show(c)) for i, c in enumerate(r)]))
        return src, model
    rowhead = False
    if t["k"] == "regular":
        head = t["head"]
        if t["feat"] == "hcol" and n > 1:
            k = n - 2
            lines.append("| " + " | ".join(head[:k + 1]) + " ||" if head[k] else row(head, 3))
            if head[k]: model.append(("thead", [("th", 1, 1, al[i], show(c)) for i, c in enumerate(head[:k])] + [("th", 2, 1, None, show(head[k]))]))
            else: model.append(("thead", [("th", 1, 1, al[i], show(c)) for i, c in enumerate(head)]))
            rowhead = head[0] == "" and any(head)
        else:
            lines.append(row(head, outer))
            model.append(("thead", [("th", 1, 1, al[i], show(c)) for i, c in enumerate(head)]))
            rowhead = n > 1 and head[0] == "" and any(head)
    if t["k"] != "relaxed": lines.append(sep())
    cells = []
    for ri, r in enumerate(t["rows"]):
        m = [["td", 1, 1, al[i], show(c)] for i, c in enumerate(r)]
        line = row(r, outer)
        if t.get("feat") == "short" and n > 2:
            cut = n - 1
            if all(r[:cut]): line, m = row(r[:cut], 3), m[:cut] + [["td", 1, 1, al[cut], ""]]
        if t.get("feat") == "col" and n > 1 and t["span"][ri] < n - 1 and r[t["span"][ri]]:
            k = t["span"][ri]
            rest = r[k + 2:]
            line = "| " + " | ".join(c or " " for c in r[:k + 1]) + " ||" + (" " + " | ".join(c or " " for c in rest) + " |" if rest else "")
            m = m[:k] + [["td", 2, 1, None, show(r[k])]] + m[k + 2:]
        if t.get("feat") == "row" and ri > 0 and t["span"][ri] < n and (n > 1):
            k = t["span"][ri]
            up = ri - 1
            while up >= 0 and cells[up][k] is None: up -= 1
            if cells[up][k][4] and not (rowhead and k == 0):
                line = row(r[:k] + ["^^"] + r[k + 1:], outer)
                cells[up][k][2] += 1; cells[up][k][3] = None
                m[k] = None
        cells.append(m); lines.append(line)
    body = [[tuple(c) for c in m if c is not None] for m in cells]
    for m in body:
        if rowhead: m[0] = ("th", 1, 1, None, m[0][4]) if m[0][1:3] == (1, 1) else m[0]
        model.append(("tbody", m))
    if t.get("foot"):
        lines.append(row(["==="] * n, outer))
        for r in t["foot"]:
            lines.append(row(r, outer)); model.append(("tfoot", [("td", 1, 1, al[i], show(c)) for i, c in enumerate(r)]))
    return "\n".join(t.get("ind", "") + l for l in lines), model


def read_tables(html):
    out, sec, cur = [], None, None
    skip = ("thead", "tbody", "tfoot")
    for t in htm.tokens(html):
        if t[0] == "s" and t[1] == "table": out.append([]); sec = None
        elif t[0] == "s" and t[1] in skip: sec = t[1]
        elif t[0] == "e" and t[1] in skip: sec = None
        elif t[0] == "s" and t[1] == "tr": out[-1].append((sec, []))
        elif t[0] == "s" and t[1] in ("td", "th"): cur = [t[1], int(t[2].get("colspan", 1)), int(t[2].get("rowspan", 1)), t[2].get("align"), ""]; out[-1][-1][1].append(cur)
        elif t[0] == "e" and t[1] in ("td", "th"): cur[4] = htm.squash(cur[4]); cur = None
        elif t[0] == "t" and cur is not None: cur[4] += t[1]
    return [[(s, [tuple(c) for c in r]) for s, r in t] for t in out]


def t_doc(case, ctx):
    mode, src, models, rest = case["mode"], [], [], []
    prev = None
    for b in case["b"]:
        if isinstance(b, dict):
            if b["k"] == "relaxed" and mode == 2: continue
            if b["k"] == "csv" and mode == 2: continue
            s, m = render(b, mode)
            if b.get("cap") and mode in (2, 4) and b["k"] == "regular": s += b["cap"]; rest.append("Caption here")
            src.append(s); models.append(m); prev = b["k"]
            ctx.label(b["k"] + (":" + b["feat"] if b.get("feat") else ""))
            src.append("Next para."); rest.append("Next para.")
        else:
            k, w = b
            if k == "p":
                w = {"alpha": "The vegetable: ", "beta": "See the table: ", "delta": "[ref] "}.get(w.split()[0], "") + w
                src.append("Intro.\n\n" + w + "."); rest.append("Intro. " + w + ".")
            elif k in ("fence", "tilde"):
                f = "```" if k == "fence" else "~~~"
                src.append("%s\n%s | x\na | b\n| c |\n---|---\n%s" % (f, w, f)); rest.append("%s | x a | b | c | ---|---" % w)
            elif k == "indent": src.append("Code.\n\n    %s | x\n    a | b\n\nAfter." % w); rest.append("Code. %s | x a | b After." % w)
            elif k == "list": src.append("- %s | x\n- a | b\n\nAfter." % w); rest.append("%s | x a | b After." % w)
            elif k == "olist": src.append("1. %s | x\n2. a | b\n\nAfter." % w); rest.append("%s | x a | b After." % w)
            elif k == "quote": src.append("> %s | x\n\nAfter." % w); rest.append("%s | x After." % w)
            elif k == "head": src.append("## %s | x\n\na | b" % w); rest.append("%s | x a | b" % w)
            else: src.append("`a|b` %s `c | d` e" % w); rest.append("a|b %s c | d e" % w)
    if not src: return
    text = "# Top\n\n" + "\n\n".join(src) + ("\n" if case["nl"] else "")
    html = ctx.w.conv(text, mode, enable_emoji_autocorrect=0, enable_smart_typography=0)
    if models: ctx.nt(text)
    got = read_tables(html)
    bad = lambda s: Violation("%s\nmode %d\n%s\n---\n%s" % (s, mode, text, html))
    if len(got) != len(models): raise bad("%d tables instead of %d" % (len(got), len(models)))
    for g, m in zip(got, models):
        m = [(s, [tuple(c) for c in r]) for s, r in m]
        drop = lambda t: [(s, [c[:3] + ((c[3] if c[1] == c[2] == 1 else None),) + c[4:] for c in r]) for s, r in t]
        if drop(g) != drop(m):
            d = next(((a, b) for a, b in zip(drop(g), drop(m)) if a != b), (g, m))
            raise bad("table is\n%r\ninstead of\n%r" % d)
    out = re.sub(r"(?s)<table.*?</table>", " ", html)
    out = re.sub(r"\s+", " ", " ".join(htm.words(out)))
    exp = " ".join(" ".join(["Top"] + rest).split())
    if out.replace(" ", "") != exp.replace(" ", ""): raise bad("text beside the tables is\n%r\ninstead of\n%r" % (out, exp))
    w = htm.balanced(html)
    if w: raise bad("HTML not well formed: " + w)


# ---------------------------------------------------------------- CSV/TSV rewriting
def esc_cell(c):
    return re.sub(r"(\\.)|\|", lambda m: m.group(1) or "\\|", c)


def csv_table(lines, tab):
    rows = [l.split("\t" if tab else ",") for l in lines]
    n = len(rows[0]); sep, body = ["---"] * n, rows[1:]
    if len(rows) > 1 and len(rows[1]) == n and all(c.strip().lower() in ("left", "right", "center", "auto") for c in rows[1]):
        sep = [{"left": ":---", "right": "---:", "center": ":---:", "auto": "---"}[c.strip().lower()] for c in rows[1]]; body = rows[2:]
    return "".join("|" + "".join(" " + (esc_cell(r[i]) if i < len(r) else "") + " |" for i in range(n)) + "\n" for r in [rows[0], sep] + body)


cl = st.sampled_from(["a", "b c", "", "é", "1.5", "x|y", "left", "right", "auto", " center ", "LEFT", "lefty", "`q`", "q\\|r"])
ln = st.lists(cl, min_size=1, max_size=5)
piece = st.one_of(
    st.tuples(st.just("t"), st.lists(ln, min_size=1, max_size=5), st.booleans(), st.sampled_from(["```table", "```table ", "``` Table", "````table", "   ```TABLE"])),
    st.tuples(st.just("m"), st.lists(ln, min_size=1, max_size=5), st.booleans(), st.sampled_from(["<!--TABLE-->\n", "<!--TABLE-->  \n", "  <!--TABLE-->\n", "<!--TABLE-->"])),
    st.tuples(st.just("p"), st.sampled_from(["para, one\n", "a,b\tc\n", "\n", "```\na,b\n```\n", "~~~\n```table\na,b\n```\n~~~\n", "````\n```table\na,b\n```\n<!--TABLE-->\na,b\n````\n", "`<!--TABLE-->` a,b\n", "x ```table y\n", "<!-- TABLE -->\na,b\n", "```tables\na,b\n```\n", "```csv\na,b\n```\n",
                                             "```table\nno delimiter\n```\n", "<!--TABLE-->\nno delimiter\n\n", "<!--TABLE-->\n\n", "    <!--TABLE-->\n", "    ```table\n    a,b\n    ```\n", "a ```` b\n", "`` ` ``\n"])))


def t_inline(case, ctx):
    src = exp = ""
    n = 0
    for p in case:
        if p[0] == "p": src += p[1]; exp += p[1]; continue
        k, rows, tab, head = p
        d = "\t" if tab else ","
        if tab: rows = [[c.replace("b c", "b, c") for c in r] for r in rows]       # commas are text between tabs
        lines = [d.join(r) for r in rows]
        if k == "m": lines = [l for l in lines if l.strip()]
        if not lines: continue
        body = "\n".join(lines)
        if not tab and "," not in body or tab and "\t" not in body: continue
        if k == "m" and lines[0][:1] in (" ", "\t") or k == "t" and not any(l for l in lines): continue
        t = csv_table(lines, tab)
        if k == "t":
            close = "`" * re.match(r" *(`+)", head).end(1) if False else re.search("`+", head).group(0)
            src += head + "\n" + body + "\n" + close + "\n"; exp += t + "\n"
        else: src += head + body + "\n\n"; exp += t + "\n"
        n += 1
    got = ctx.w.t2t("apex_process_inline_tables", src)
    if n: ctx.nt(src)
    if got != exp: raise Violation("inline tables of %r\n%r\n---\n%r" % (src, got, exp))


PROPS = [Prop("doc", lambda: docs, t_doc, 16000, 100000), Prop("inline", lambda: st.lists(piece, min_size=1, max_size=5), t_inline, 4000, 40000)]
