"""C33 - embedded images hold exactly the bytes of their files, and nothing else changes."""
import base64
import html
import os
import re
import shutil
from urllib.parse import quote
from hypothesis import strategies as st
from lib import cli
from lib.runner import Prop
from lib.worker import Violation

BINS = ["worker", "apex"]
RULE = ("A scratch directory is filled with generated files (random bytes of 0 to 3000 and some large ones, names with spaces, quotes, ampersands, percent signs, other scripts, subdirectories, all extensions). "
        "A document shows some of them as Markdown, reference and raw HTML images among missing files, directories, remote and data URLs, code and text. The output with embedding must be the output without it, with "
        "exactly the src of each readable file replaced by data:TYPE;base64,BYTES. Library with a base directory, and the command line. Non-trivial: one embedded and one other image.")
ASSUMPTIONS = ["alt texts and titles hold no > in raw HTML", "files above 10 MB (documented limit in the code) are outside the domain"]

MIME = {"png": "image/png", "jpg": "image/jpeg", "jpeg": "image/jpeg", "jpe": "image/jpeg", "gif": "image/gif", "webp": "image/webp", "svg": "image/svg+xml", "bmp": "image/bmp", "ico": "image/x-icon"}
stem = st.lists(st.sampled_from(["pic", "httpd", "data", "https",  "a b", "é", "x&y", "it's", "(1)", "5%x", "中", "a.b", "-", "_", "+", "Q", "@2x", "~", "="]), min_size=1, max_size=2).map("".join)
ext = st.sampled_from(["png", "jpg", "jpeg", "gif", "webp", "svg", "bmp", "ico", "PNG", "Jpg", "SVG", "xyz", "jpe", "pngx"])
folder = st.sampled_from(["", "", "img/", "my img/", "a/b/", "v1.2/"])
data = st.one_of(st.binary(max_size=12), st.binary(min_size=1, max_size=300), st.builds(lambda n, b: bytes((i * 7 + b) % 256 for i in range(n)), st.integers(300, 3000), st.integers(0, 255)))


@st.composite
def doc(draw):
    files = [[draw(folder) + draw(stem) + draw(st.sampled_from(["." + draw(ext), "." + draw(ext), "." + draw(ext), ""])), draw(data).hex()] for _ in range(draw(st.integers(1, 4)))]
    parts = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["md", "md", "title", "ref", "raw", "raw1", "enc", "text", "code", "missing", "remote", "data", "dir", "link", "big", "abs"]))
        parts.append([k, draw(st.integers(0, len(files) - 1))])
    return {"f": files, "p": parts, "m": draw(st.sampled_from([1, 2, 3, 4])), "pre": draw(st.integers(0, 1)), "sep": draw(st.sampled_from([" ", "\n\n", "\n"])), "cli": draw(st.integers(0, 9)) == 0, "cap": draw(st.integers(0, 1))}


def build(case, d):
    refs, out, expected, n = [], [], [], 0
    for i, (k, j) in enumerate(case["p"]):
        name = case["f"][j][0]
        dest = "<%s>" % name
        if k == "md": s = "![alt %d](%s)" % (i, dest)
        elif k == "title": s = '![alt & %d](%s "ti %d")' % (i, dest, i)
        elif k == "ref":
            s = "![alt][r%d]" % i
            refs.append("[r%d]: %s" % (i, dest))
        elif k == "raw": s = 'x<img class="c" data-src="no.png" src="%s" alt="y">' % html.escape(name)
        elif k == "raw1": s = "x<img src='%s' width=\"3\"/>" % html.escape(name)
        elif k == "enc": s = "![e](%s)" % quote(name)
        elif k == "text": s = "some text with src=\"%s\" and <b>more</b>" % "pic.png"
        elif k == "code": s = "`<img src=\"%s\">`" % "pic.png"
        elif k == "missing": s = "![m](not-there-%d.png)" % i
        elif k == "remote": s = "![r](%s)" % ["http://x.y/pic.png", "https://x.y/a.png", "//x.y/pic.png"][i % 3]
        elif k == "data": s = "![d](data:image/png;base64,AAAA)"
        elif k == "dir": s = "![dir](dir.png)"
        elif k == "link": s = "[a link](%s)" % dest
        elif k == "abs": s = "![abs](<%s/%s>)" % (d, name)
        else: s = "long text " * 300
        out.append(s)
    t = "Start\n\n" + case["sep"].join(out) + "\n\nEnd of the text\n\n" + "\n".join(refs) + "\n"
    return t


def mime(p):
    e = os.path.basename(p).rsplit(".", 1)
    return MIME.get(e[1].lower(), "image/png") if len(e) == 2 else "image/png"


def expect(h, d):
    """the output with every readable file embedded"""
    n = [0, 0]

    def src(m):
        q = m.group(2)
        u = m.group(3)
        n[0] += 1
        if re.match(r"data:|https?:|//", u): return m.group(0)
        for v in (u, re.sub(r"(?:%[0-9A-Fa-f]{2})+", lambda x: bytes.fromhex(x.group(0).replace("%", "")).decode("utf-8", "surrogateescape"), html.unescape(u))):
            p = v if v.startswith("/") else os.path.join(d, v)
            if os.path.exists(p):
                if not os.path.isfile(p): return m.group(0)
                n[1] += 1
                if not os.path.getsize(p): return m.group(0)               # nothing to embed
                with open(p, "rb") as f: return '%ssrc="data:%s;base64,%s"' % (m.group(1), mime(p), base64.b64encode(f.read()).decode())
        return m.group(0)
    return re.sub(r"""(<img\b(?:[^>]*\s)?)src=(["'])(.*?)\2""", src, h), n


def check(case, ctx):
    d = os.path.join(ctx.scratch, "e")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/dir.png")
    case = dict(case, f=[f for f in case["f"]])
    for name, hx in case["f"]:
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(bytes.fromhex(hx))
    t = build(case, d)
    if case["cli"]:
        with open(d + "/doc.md", "w") as f: f.write(t)
        a, b = (cli.run(ctx, ["--mode", "unified", "--no-plugins", d + "/doc.md"] + x, cwd=ctx.scratch) for x in ([], ["--embed-images"]))
        a, b = a[1], b[1]
    else:
        o = dict(mode=case["m"], unsafe=1, base_directory=d, generate_header_ids=0, enable_image_captions=case["cap"], pretty=case["pre"], enable_smart_typography=0)
        a, b = ctx.w.conv(t, embed_images=0, **o), ctx.w.conv(t, embed_images=1, **o)
    e, (n, k) = expect(a, d)
    if b != e:
        i = next((i for i, (x, y) in enumerate(zip(b, e)) if x != y), min(len(b), len(e)))
        raise Violation("embedding images gives the wrong output at %d:\n%s\nexpected ...%s\ngot      ...%s\nfiles %r" % (i, t[:2000], e[max(0, i - 80):i + 200], b[max(0, i - 80):i + 200], [(x, len(y) // 2) for x, y in case["f"]]))
    # every Markdown image that names a file is embedded
    want = sum(1 for q, j in case["p"] if q in ("md", "title", "ref", "raw", "raw1", "enc", "abs"))
    if k != want:
        raise Violation("%d images name files, %d are in the output with their names:\n%s\n%s" % (want, k, t[:2000], a[:3000]))
    ctx.nt(k > 0 and n > k)
    ctx.label("embedded %d" % min(k, 4))
    if case["cli"]: ctx.label("command line")


PROPS = [Prop("embed", doc, check, 4000, 60000)]
