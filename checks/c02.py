"""C02 - a conversion is a pure function of text and options."""
from hypothesis import strategies as st
from lib.runner import Prop
from lib.worker import Violation, Worker
from lib import gens

BINS = ["worker"]
RULE = ("Histories: sequences of conversions (and side-table operations) with mixed options run in one process; every answer is compared "
        "with the answer of a process that never converted anything before. Non-trivial: a history of at least three conversions, not all equal, "
        "with non-empty answers.")
ASSUMPTIONS = ["a forked child of an idle process stands for a fresh process", "no plugin or external highlighter is configured"]

# short documents that use stateful-looking features (registries, counters, static buffers)
SEEDS = ["# A\n\n# A\n\n<!--TOC-->\n", "x[^1] ^[n]\n\n[^1]: f\n", "*[HTML]: Hyper\n\nHTML\n", "[>MD]: Markdown\n\n[>MD] x\n", "(!term) x {i: \"b\"}\n\n<!--INDEX-->\n", "title: T\n\n[%title]\n",
         "| a | b |\n|---|---|\n| c ||\n| ^^ | d |\n\n[Cap]\n", "term\n: def\n", "{:r: .c}\n\npara\n{: r}\n", "![a](b.png \"t\")\n", "[[W|x]]\n", "::: note\nx\n:::\n", "> [!NOTE]\n> x\n",
         "a. x\nb. y\n", "$x$ \\(y\\)\n", "{% if x %}a{% endif %}\n", "{++a++}{--b--}\n", "==a== ++b++ x^2^ ~y~\n", ":smile: :smle:\n", "<div markdown=\"1\">\n*x*\n</div>\n", "me@e.com http://e.com\n", "```python\nx\n```\n", "- [x] a\n- b\n", "# H {#i .c}\n\n[l](u){.k}\n", "[s]{.x}\n", "<!--BREAK-->\n\n{::pagebreak /}\n", "---\nmode: gfm\n---\n# A\n", "quotes language: fr\n\n\"a\"\n", "base header level: 3\n\n# A\n"]
opts = gens.options().map(lambda o: {k: v for k, v in o.items() if k != "random_footnote_ids"})    # documented as random
item = st.fixed_dictionaries({"t": st.one_of(st.sampled_from(SEEDS), gens.doc), "o": opts})


def t_hist(case, ctx):
    h = ctx.w
    h.fresh()
    ref = getattr(ctx, "ref", None)
    if ref is None:
        ref = ctx.ref = Worker(h.path, cwd=h.cwd, recycle=400)
    texts = []
    n = 0
    for i, c in enumerate(case["h"]):
        t = c["t"].encode("utf-8", "surrogatepass").replace(b"\0", b"")
        o = gens.opttext(c["o"])
        a = h.call("conv", o, t)
        b = ref.call("iso:conv", o, t)
        if a != b:
            raise Violation("answer %d of the history differs from a fresh process:\n%r\n%r" % (i, a, b))
        if len(a) > 1:
            raise Violation("the conversion changed its %s" % a[1:])
        texts.append((o, t))
        n += bool(a[0])
    # once more, in the same process, all of them
    for o, t in texts:
        if h.call("conv", o, t) != ref.call("iso:conv", o, t):
            raise Violation("a repeated conversion answers differently: %r" % t)
    ctx.label("len>=5" if len(texts) >= 5 else "len<5")
    ctx.nt(len(set(texts)) >= 3 and n >= 3)
    h.fresh()


def t_long(case, ctx):
    h = ctx.w
    h.fresh()
    h.recycle = 10 ** 9
    docs = [(gens.opttext(c["o"]), c["t"].encode("utf-8", "surrogatepass").replace(b"\0", b"")) for c in case["h"]]
    first = [h.call("conv", o, t) for o, t in docs]
    try:
        for r in range(case["n"]):
            for i, (o, t) in enumerate(docs):
                if h.call("conv", o, t) != first[i]:
                    raise Violation("conversion %d in one process answers differently from the first" % (r * len(docs) + i))
    finally:
        h.recycle = 1500
    ctx.nt(len(docs) >= 1)
    h.fresh()


def t_len(case, ctx):
    """the length argument decides what is converted: bytes beyond it are not looked at"""
    t = case["t"].encode("utf-8", "surrogatepass").replace(b"\0", b"")
    junk = case["j"].encode("utf-8", "surrogatepass").replace(b"\0", b"")
    o = gens.opttext(case["o"])
    a = ctx.w.call("conv", o, t)
    b = ctx.w.call("conv", o, t + junk, len(t))
    if a != b:
        raise Violation("text after the given length changes the answer:\n%r\n%r" % (a, b))
    ctx.nt(len(t) > 3 and len(junk) > 0)


small = st.fixed_dictionaries({"t": st.sampled_from(SEEDS), "o": st.fixed_dictionaries({"mode": st.integers(0, 4)})})
# histories that stay with one set of options, so that the same renderer sees several documents
same = st.builds(lambda o, ts: {"h": [{"t": t, "o": o} for t in ts]},
                 st.one_of(opts, st.builds(lambda m, f: {"mode": m, "output_format": f}, st.sampled_from([2, 3, 4]), st.integers(0, 11))),
                 st.lists(st.one_of(st.sampled_from(SEEDS), st.builds(lambda a, b: a + "\n" + b, st.sampled_from(SEEDS), st.sampled_from(SEEDS)), gens.doc), min_size=3, max_size=9))
PROPS = [
    Prop("history", lambda: st.one_of(st.fixed_dictionaries({"h": st.lists(item, min_size=2, max_size=9)}), same), t_hist, 1400),
    Prop("long-history", lambda: st.fixed_dictionaries({"h": st.lists(small, min_size=2, max_size=4), "n": st.sampled_from([600, 2500])}), t_long, 16, 200),
    Prop("length", lambda: st.fixed_dictionaries({"t": gens.doc, "j": gens.soup, "o": opts}), t_len, 4000),
]
