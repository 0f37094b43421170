"""C06 - ==highlight==, ++insert++, ^superscript^, ~subscript~ markers."""
import re
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation
from lib import gens, htm

BINS = ["worker"]
RULE = ("Texts made of the markers, near misses, words and punctuation go through the marker passes and are compared byte for byte with a reference written from the documented rules; "
        "the same with marks in addresses, tags and comments, which must stay, and with interleaved fenced, inline and indented code, which must come out untouched; and whole documents are converted and compared with the conversion of the same document with the HTML element "
        "written out. Non-trivial: at least one marker pair was converted.")
ASSUMPTIONS = ["inline code is a single-backtick span that opens and closes on its line; fenced code uses three backticks"]

HL = re.compile(r"(?<![=+{])==(?![=+} \t\n\r])([^\n\r]*?)(?<![ \t+])==(?![=+])")
INS = re.compile(r"(?<![+{])\+\+(?![+} \t\n\r])([^\n\r]*?)(?<![ \t+])\+\+(?!\+)")
SUP = re.compile(r"(\\[\^~])|(?<!\[)\^([^ \t\n^.,;:!?]+)\^?")


def m_hl(t): return HL.sub(r"<mark>\1</mark>", t)
def m_ins(t): return INS.sub(r"<ins>\1</ins>", t)
def m_sup(t): return SUP.sub(lambda m: m.group(1) or "<sup>" + m.group(2) + "</sup>", t)


FN = {"hl": ("apex_process_highlights", m_hl), "ins": ("apex_process_inserts", m_ins), "sup": ("apex_process_sup_sub", m_sup)}
MARK = {"hl": ["==", "=", "===", "{==", "==}", "+", "+=="], "ins": ["++", "+", "+++", "{++", "++}"], "sup": ["^", "^^", "[^", "^2", "x^", "]"]}
COMMON = [" ", " ", "\n", "\n\n", ".", ",", "!", "*", "(", ")", "-", "é", "中", "\\", "#", ">", "\t", "  "]


def toks(k):
    return st.one_of(st.sampled_from(MARK[k] * 3 + COMMON), gens.uword, st.sampled_from({"hl": ["==ab==", "==a b==", "==c= =d=="], "ins": ["++ab++", "++a b++", "++ab++ {note}"], "sup": ["x^2^", "x^2", "a^b,c^"]}[k]))


CODE = ["`code == x ==`", "`++a++`", "`x^2^ H~2~O`", "`==a==`", "`^`"]
FENCE = ["```\n==a== ++b++ x^2^ ~c~\n```\n", "```python\nx ==y== z ^q^\n\n==k==\n```\n"]
INDENT = ["    ==a== ++b++ x^2^\n", "\t==z== x^y^\n"]


def clean(t):
    # an indented line is code for some passes: keep the domain of the first test to text lines
    return re.sub(r"(?m)^[ \t]+", "", t)


def t_text(case, ctx):
    k = case["k"]; fn, model = FN[k]
    t = clean("".join(case["t"]))
    r = ctx.w.t2t(fn, t)
    if r == "!missing": return
    e = model(t)
    if r != e: raise Violation("%s of %r:\n%r\nexpected\n%r" % (k, t, r, e))
    ctx.label(k)
    ctx.nt(e != t)


def t_code(case, ctx):
    """code is left alone; the text around it is still processed"""
    k = case["k"]; fn, model = FN[k]
    src, exp = "", ""
    n = 0
    for kind, s in case["t"]:
        if kind == "text":
            s = clean("".join(s)).replace("{", "").strip() or "x"
            src += s + "\n\n"; exp += model(s + "\n\n")
            n += model(s) != s
        elif kind == "span":
            src += "say " + s + " end\n\n"; exp += "say " + s + " end\n\n"
        elif kind == "fence":
            src += s + "\n"; exp += s + "\n"
        elif k != "ins":
            src += s + "\n"; exp += s + "\n"
    r = ctx.w.t2t(fn, src)
    if r == "!missing": return
    if r != exp: raise Violation("%s of %r:\n%r\nexpected\n%r" % (k, src, r, exp))
    ctx.nt(n > 0 and any(x[0] != "text" for x in case["t"]))


# constructed sup/sub/underline items with their meaning
word = gens.uword
num = st.integers(0, 99).map(str)
item = st.one_of(word.map(lambda w: (w, w)),
                 st.builds(lambda a, b: (a + "^" + b + "^", a + "<sup>" + b + "</sup>"), word, num),
                 st.builds(lambda a, b: (a + "^" + b, a + "<sup>" + b + "</sup>"), word, num),
                 st.builds(lambda a, b, c: (a + "~" + b + "~" + c, a + "<sub>" + b + "</sub>" + c), word, num, word | st.just("")),
                 st.builds(lambda a, b: (a + "~" + b, a + "<sub>" + b + "</sub>"), word, num),
                 st.builds(lambda a: ("~" + a + "~", "<u>" + a + "</u>"), word),
                 st.builds(lambda a, b, c: ("~" + a + c + b + "~", "<u>" + a + c + b + "</u>"), word, word, st.sampled_from([" ", "-", " x ", "'"])),
                 st.builds(lambda a, b: ("(~" + a + "~)-~" + b + "~", "(<u>" + a + "</u>)-<u>" + b + "</u>"), word, word),
                 st.builds(lambda a, b, c, p: (a + "~" + b + p + " ~" + c + "~", a + "<sub>" + b + "</sub>" + p + " <u>" + c + "</u>"), word, num, word, st.sampled_from(list(".,;:!?"))),
                 st.builds(lambda a, b: ("~ " + a + " " + b, "~ " + a + " " + b), word, word), st.builds(lambda a, b: (a + " ^ " + b, a + " ^ " + b), word, word),
                 word.map(lambda w: ("~~" + w + "~~", "~~" + w + "~~")),
                 word.map(lambda w: ("$" + w + "^2~3$", "$" + w + "^2~3$")), word.map(lambda w: ("$$" + w + "^2^$$", "$$" + w + "^2^$$")),
                 word.map(lambda w: ("{% " + w + "^2^ %}", "{% " + w + "^2^ %}")), word.map(lambda w: ("`" + w + "~2~`", "`" + w + "~2~`")),
                 word.map(lambda w: ("[^" + w + "]", "[^" + w + "]")), word.map(lambda w: ("{~~" + w + "~>" + w + "~~}", "{~~" + w + "~>" + w + "~~}")))
CODEPRE = ["    ", "\t", "    -x ", "    3x ", "      1.", "\t5 "]
PRE = ["", "", "", "- ", "  + ", "    - ", "\t* ", "    12. ", "\t3.\t", "      *\t", "> ", "    + "] + CODEPRE
PUN = ["", "", ",", ".", ";", "!", "?"]


def t_sub(case, ctx):
    # a lone "x~2" looks for a closing tilde later on its line, so it ends its line (with a full stop in half of the cases)
    src, exp = [], []
    for pre, line in case["l"]:
        s = [a + p for (a, b), p in line if not re.search(r"\w~\d+$", a)]
        e = [b + p for (a, b), p in line if not re.search(r"\w~\d+$", a)]
        tail = [(a, b, p) for (a, b), p in line if re.search(r"\w~\d+$", a)][:1]
        s, e = " ".join(s + [a + p for a, b, p in tail]), " ".join(e + [b + p for a, b, p in tail])
        if pre in CODEPRE: s = e = "\n" + pre + s + "\n"              # indented code
        else: s, e = pre + s, pre + e
        src.append(s); exp.append(e)
    src, exp = "\n".join(src), "\n".join(exp)
    r = ctx.w.t2t("apex_process_sup_sub", src)
    if r == "!missing": return
    if r != exp: raise Violation("sup/sub of %r:\n%r\nexpected\n%r" % (src, r, exp))
    ctx.nt(src != exp)


# whole documents; addresses and tags keep their marks
ADDR = ["/~u/b", "/~u/~v", "/a^b^c", "/c++/d++", "/==x==/y", "/x~1~y", "?a==b==c", "/a^2", "/p+q=r"]
PLACES = ["[%s](%s)", "[%s](<%s> \"t\")", "%s <http://x.y%s>", "![%s](%s)", "<b title=\"%s %s z\">q</b>", "<i data-%s='%s'>q</i>", "%s http://x.y%s z", "x<!-- %s %s -->"]


ditem = st.one_of(word.map(lambda w: (w, w)), st.builds(lambda a, b: ("==" + a + " " + b + "==", "<mark>" + a + " " + b + "</mark>"), word, word),
                  st.builds(lambda a, b: ("++" + a + " " + b + "++", "<ins>" + a + " " + b + "</ins>"), word, word),
                  st.builds(lambda a, b: (a + "^" + b + "^", a + "<sup>" + b + "</sup>"), word, num),
                  st.builds(lambda a, b: (a + "~" + b + "~", a + "<sub>" + b + "</sub>"), word, num),
                  st.builds(lambda a: ("~" + a + "~", "<u>" + a + "</u>"), word),
                  st.builds(lambda p, w, a: (p % (w, a),) * 2, st.sampled_from(PLACES), word, st.sampled_from(ADDR)),
                  word.map(lambda w: ("`==" + w + "==`", "`==" + w + "==`")), word.map(lambda w: ("`++" + w + "++ x^2^`", "`++" + w + "++ x^2^`")))


def t_doc(case, ctx):
    def doc(k):
        return "Start\n\n" + "\n".join(p + " ".join(i[k] for i in l) + "\n" for p, l in case["d"])
    o = dict(enable_sup_sub=1, generate_header_ids=0, unsafe=1)
    a, b = ctx.w.conv(doc(0), mode=case["m"], **o), ctx.w.conv(doc(1), mode=case["m"], **o)
    if a != b: raise Violation("mode %d, %r gives\n%r\nwith the elements written out\n%r" % (case["m"], doc(0), a, b))
    n = sum(1 for p, l in case["d"] for i in l if i[0] != i[1])
    for p, l in case["d"]:
        for i in l:
            for x in ADDR:
                if i[0] == i[1] and x in i[0] and x.replace("^", "%5E") not in a and x not in a:
                    raise Violation("mode %d: %s of %r is lost in\n%s" % (case["m"], x, doc(0), a))
    got = len(re.findall(r"<(?:mark|ins|sup|sub|u)>", a))
    if got != n: raise Violation("%d elements expected: %r -> %r" % (n, doc(0), a))
    ctx.nt(n > 0)


def tt(k): return st.lists(toks(k), max_size=14)


anyk = st.sampled_from(["hl", "ins", "sup"])
PROPS = [
    Prop("rules", lambda: anyk.flatmap(lambda k: st.fixed_dictionaries({"k": st.just(k), "t": tt(k)})), t_text, 16000),
    Prop("code", lambda: anyk.flatmap(lambda k: st.fixed_dictionaries({"k": st.just(k), "t": st.lists(st.one_of(st.tuples(st.just("text"), tt(k)), st.tuples(st.just("span"), st.sampled_from(CODE)), st.tuples(st.just("fence"), st.sampled_from(FENCE)), st.tuples(st.just("indent"), st.sampled_from(INDENT))), min_size=2, max_size=6)})), t_code, 5000),
    Prop("sup-sub", lambda: st.fixed_dictionaries({"l": st.lists(st.tuples(st.sampled_from(PRE), st.lists(st.tuples(item, st.sampled_from(PUN)), min_size=1, max_size=5)), min_size=1, max_size=4)}), t_sub, 6000),
    Prop("documents", lambda: st.fixed_dictionaries({"m": st.sampled_from([2, 4, 4]), "d": st.lists(st.tuples(st.sampled_from(["", "# ", "- ", "> ", "1. "]), st.lists(ditem, min_size=1, max_size=5)), min_size=1, max_size=4)}), t_doc, 4000),
]
