"""Small HTML reader for oracles: token stream, visible text, elements."""
import re
from html.parser import HTMLParser

VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}


class _P(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.t = []

    def handle_starttag(self, tag, attrs): self.t.append(("s", tag, dict(attrs)))
    def handle_startendtag(self, tag, attrs): self.t.append(("s", tag, dict(attrs)))
    def handle_endtag(self, tag): self.t.append(("e", tag))
    def handle_data(self, d):
        if self.t and self.t[-1][0] == "t": self.t[-1] = ("t", self.t[-1][1] + d)
        else: self.t.append(("t", d))
    def handle_comment(self, d): self.t.append(("c", d))


def tokens(h):
    p = _P(); p.feed(h); p.close()
    return p.t


def text(h, sep=""):
    return sep.join(t[1] for t in tokens(h) if t[0] == "t")


def words(h):
    return text(h, " ").split()


def squash(s):
    return re.sub(r"\s+", " ", s).strip()


def elements(h, tag):
    """[(attrs, inner text)] of every <tag>, in order of the start tags"""
    out, stack = [], []
    for t in tokens(h):
        if t[0] == "s" and t[1] == tag:
            e = [t[2], ""]; out.append(e)
            if tag not in VOID: stack.append(e)
        elif t[0] == "e" and t[1] == tag and stack: stack.pop()
        elif t[0] == "t":
            for e in stack: e[1] += t[1]
    return [(a, s) for a, s in out]


def balanced(h):
    """None, or what is wrong: every non-void start tag is closed in order"""
    st = []
    for t in tokens(h):
        if t[0] == "s" and t[1] not in VOID: st.append(t[1])
        elif t[0] == "e" and t[1] not in VOID:
            if not st or st[-1] != t[1]: return "</%s> closes %s" % (t[1], st[-3:])
            st.pop()
    return "unclosed %s" % st if st else None


def norm(h):
    """HTML with insignificant white space between tags dropped"""
    return re.sub(r">\s+<", "><", h).strip()
