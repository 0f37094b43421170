"""C05 - CriticMarkup: accept, reject and markup views."""
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, htm

BINS = ["worker", "apex"]
RULE = ("Texts made of CriticMarkup markers, words and near-miss punctuation are put through the three views and compared byte for byte with a reference "
        "written from the CriticMarkup syntax; documents with edits in paragraphs, headings, lists, tables and quotes are converted in accept/reject view and compared with the "
        "conversion of the hand-edited document. Non-trivial: at least one complete edit.")
ASSUMPTIONS = ["edits do not nest; the first closing marker ends an edit"]
ADD, DEL, SUB, HL, COM = "{++", "{--", "{~~", "{==", "{>>"
CLOSE = {ADD: "++}", DEL: "--}", SUB: "~~}", HL: "==}", COM: "<<}"}
ACCEPT, REJECT, MARKUP = 0, 1, 2


def model(t, view, count=None):
    out, i = [], 0
    while i < len(t):
        m = t[i:i + 3]
        if m in CLOSE:
            j = t.find(CLOSE[m], i + 3)
            if j >= 0:
                c, old = t[i + 3:j], ""
                if m == SUB and "~>" in c:
                    old, c = c.split("~>", 1)
                out.append(view_of(m, old, c, view))
                if count is not None: count.append(m)
                i = j + 3
                continue
        out.append(t[i]); i += 1
    return "".join(out)


def view_of(m, old, c, view):
    if view == ACCEPT: return c if m in (ADD, SUB, HL) else ""
    if view == REJECT: return {SUB: old, DEL: c, HL: c}.get(m, "")
    if m == SUB and old: return '<del class="critic break">%s</del><ins class="critic break">%s</ins>' % (old, c)
    return {ADD: '<ins class="critic">%s</ins>', SUB: '<ins class="critic">%s</ins>', DEL: '<del class="critic">%s</del>', HL: '<mark class="critic">%s</mark>', COM: '<span class="critic comment">%s</span>'}[m] % c


# numeric values of the views, taken from the public header order; see worker
def t_text(case, ctx):
    t = "".join(case["t"])
    n = []
    for v, code in ((ACCEPT, 0), (REJECT, 1), (MARKUP, 2)):
        r = ctx.w.call("apex_process_critic_markup_text", t, code)[0]
        if r == b"!missing": return
        e = model(t, v, n if v == 0 else None)
        if r.decode("utf-8", "surrogateescape") != e:
            raise Violation("view %d of %r:\n%r\nexpected\n%r" % (v, t, r, e))
    for m in n: ctx.label(m)
    ctx.nt(bool(n))


tok = st.one_of(st.sampled_from(list(CLOSE) + list(CLOSE.values()) + ["~>", "{", "}", "+", "-", "~", "=", ">", "<", "\n", "\n\n", " ", "{+", "++", "==", "--", "`", "é", "*", "%s", "%d%n", "\\"]), gens.word,
                st.builds(lambda m, a: m + a + CLOSE[m], st.sampled_from(list(CLOSE)), gens.word), st.builds(lambda a, b: "{~~" + a + "~>" + b + "~~}", gens.word | st.just(""), gens.word | st.just("")), st.text(max_size=3).map(lambda s: s.replace("\0", "").encode("utf-8", "replace").decode()))
# long contents: every buffer size
big = st.builds(lambda m, a, n: m + a * n + CLOSE[m], st.sampled_from(list(CLOSE)), st.sampled_from(["x", "ab ", "~>"]), st.sampled_from([60, 199, 200, 201, 1000, 5000]))

# documents: pieces are (plain, accept, reject) triples
w = st.lists(gens.uword, min_size=1, max_size=3).map(" ".join)


def piece(kind, a, b):
    # (source, accepted, rejected, markup)
    if kind == "t": return (a, a, a, a)
    if kind == "+": return (ADD + a + "++}", a, "", view_of(ADD, "", a, MARKUP))
    if kind == "-": return (DEL + a + "--}", "", a, view_of(DEL, "", a, MARKUP))
    if kind == "~": return (SUB + a + "~>" + b + "~~}", b, a, view_of(SUB, a, b, MARKUP))
    if kind == "=": return (HL + a + "==}", a, a, view_of(HL, "", a, MARKUP))
    return (COM + a + "<<}", "", "", view_of(COM, "", a, MARKUP))


pc = st.builds(piece, st.sampled_from("tt+-~=>"), w, w)
linep = st.lists(pc, min_size=1, max_size=5)
PRE = ["", "# ", "## ", "- ", "1. ", "> ", "* "]


@st.composite
def cdoc(draw):
    lines = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(PRE + ["table"]))
        if kind == "table":
            cells = [draw(linep) for _ in range(4)]
            lines.append(("table", cells))
        else:
            lines.append((kind, [draw(linep)]))
    return lines


def render(lines, k):
    out = []
    for kind, ls in lines:
        ts = ["so " + " ".join(p[k] for p in l) + " on" for l in ls]
        if kind == "table": out.append("| %s | %s |\n|---|---|\n| %s | %s |\n| x | y |\n" % tuple(ts))
        else: out.append(kind + ts[0] + "\n")
    return "\n".join(out)


def t_doc(case, ctx):
    lines = case["d"]
    src = render(lines, 0)
    o = dict(enable_critic_markup=1, generate_header_ids=0)
    for view, k in ((0, 1), (1, 2)):
        a = ctx.w.conv(src, mode=case["m"], critic_mode=view, **o)
        b = ctx.w.conv(render(lines, k), mode=case["m"], critic_mode=view, **o)
        if a != b:
            raise Violation("%s of %r:\n%r\nthe edited text gives\n%r" % ("accept" if not view else "reject", src, a, b))
    a = ctx.w.conv(src, mode=case["m"], critic_mode=2, **o)
    for kind, ls in lines:
        for l in ls:
            for p in l:
                if p[3] != p[0] and p[3] not in a:
                    raise Violation("markup view of %r lacks %r:\n%r" % (src, p[3], a))
    if any(x in a for x in CLOSE) or any(x in a for x in ("++}", "--}", "~~}", "==}")):
        raise Violation("markers left in the markup view: %r" % a)
    ctx.label("mode %d" % case["m"])
    ctx.nt(any(p[0] != p[1] or p[0] != p[2] for _, ls in lines for l in ls for p in l))


PROPS = [
    Prop("views", lambda: st.fixed_dictionaries({"t": st.lists(tok, max_size=14) | st.lists(big | tok, max_size=4)}), t_text, 16000),
    Prop("documents", lambda: st.fixed_dictionaries({"d": cdoc(), "m": st.sampled_from([2, 4])}), t_doc, 4000),
]
