"""Shared generators.  Every random choice is made by Hypothesis."""
from hypothesis import strategies as st

WORDS = ["alpha", "beta", "gamma", "delta", "omega", "kappa", "sigma", "theta", "river", "stone", "cloud", "ember",
         "maple", "north", "quartz", "violet", "zebra", "copper", "lantern", "harbor"]
word = st.sampled_from(WORDS)
# a word that is never meaningful to any dialect: letters only
uword = st.builds(lambda a, b: a + b, st.sampled_from(["qu", "za", "mo", "li", "ter", "vek", "dro", "sna"]),
                  st.sampled_from(["blim", "dorp", "fenk", "glop", "hasp", "jolt", "nerd", "pix", "ruzt"]))

FRAGS = [
    "# ", "## ", "### ", "\n", "\n\n", " ", "  \n", "\\\n", "* ", "- ", "+ ", "1. ", "2) ", "a. ", "b. ", "A. ", "i. ", "    ", "\t", "> ",
    "```\n", "```python\n", "~~~\n", "~~~", "`", "``", "***", "---\n", "===\n", "___\n", "**", "*", "_", "__", "~~", "~", "==", "++", "^", "^^",
    "[", "]", "(", ")", "{", "}", "<", ">", "|", "!", "\\", "&", "#", ":", ";", '"', "'", ".", ",", "%", "$", "@", "=", "+", "-", "/",
    "[a](http://e.com)", "![a](b.png)", "![a](b.png \"t\")", "[a][b]", "[b]: http://e.com \"T\"\n", "<http://e.com>", "http://e.com/x", "me@e.com", "<me@e.com>",
    "[^1]", "[^1]: note\n", "^[inline note]", "[^x]:\n    para\n\n    para2\n", "(fn: n)",
    "{++ins++}", "{--del--}", "{~~a~>b~~}", "{==hi==}", "{>>c<<}", "{++", "++}", "{--", "--}", "{~~", "~>", "~~}", "{==", "==}", "{>>", "<<}",
    "==mark==", "++ins++", "H~2~O", "x^2^", "x^2", "~~del~~",
    "| a | b |\n|---|---|\n| c | d |\n", "| a | b |\n| c | d |\n", "|---|:-:|\n", "| ^^ | || x |\n", "|===|\n", "[Caption]\n", ": Caption\n", "[Caption][id]\n",
    "+---+---+\n| a | b |\n+===+===+\n| c | d |\n+---+---+\n", "```table\na,b\nc,d\n```\n", "<!--TABLE-->\na,b\nc,d\n\n",
    "term\n: def\n", "term\n:: def\n", "\n: def\n", "*[HTML]: Hyper Text\n", "[>ab]: expansion\n", "[>ab]", "[>(MD) Markdown]", "HTML",
    "[[Page]]", "[[Page|Text]]", "[[a b#c]]", "> [!NOTE]\n> x\n", "> [!TIP]+ T\n> y\n", "!!! note\n    x\n", ":::\n", "::: note\n", ":::: {.a #b k=v}\n", "<<[x.md]\n", "{{x.md}}", "<<(x.md)", "<<{x.md}", "/x.md\n",
    "$a+b$", "$$\nx\n$$", "\\(a\\)", "\\[b\\]", "\\\\(a\\\\)", "\\\\[b\\\\]", "{% tag %}", "{{ var }}", "[%title]", "[%title:upper]", "[%k:split(,):join(-)]", "[%n:slice(0,2)]",
    "{#id}", "{.cls}", "{: .cls #id k=\"v\"}", "{:.a}\n", "{:ref: .c}\n", "{: ref}", "{:toc}", "[span]{.x}", "{width=50%}", "{::comment}", "{:/}",
    "<div>", "</div>", "<div markdown=\"1\">\n", "<p>", "</p>", "<b>", "</b>", "<!-- c -->", "<!--", "-->", "<!--BREAK-->", "<!--PAUSE:3-->", "{::pagebreak /}", "{pause:2}", "<!--TOC-->", "{{TOC}}", "{{TOC:2-3}}", "<!--TOC max2 min1-->", "<!--INDEX-->", "{index}",
    "<img src=\"a.png\">", "<table><tr><td>a</td></tr></table>", "<script>x</script>", "<br/>", "<a href='x'>y</a>", "<pre><code>x</code></pre>", "<details><summary>s</summary>x</details>",
    ":smile:", ":+1:", ":smle:", ":rocket:", "(!term)", "(!term, sub)", "(!!p)", "{i: \"term\"}", "word{^}", "[word]{^}", "[@key]", "@key", "[-@key, p. 3]", "[#key]", "[#key][p. 3]", "[#]", "[see @a; @b]",
    "- [ ] ", "- [x] ", "#tag ", "(c)", "--", "...", "\"q\"", "'s", "1/2", "title: a\n", "---\ntitle: a\nx: y\n---\n", "% T\n% A\n", "author: b\nmode: gfm\n\n",
    "![](a.mp4)", "![a](b.png){.x}", "![a](b.png){@2x}", "![a](b.* )", "![a](b.png width=30 height=\"40\")", "[a](b \"t\"){:target=_blank}", "@2x", "webp",
    "&amp;", "&#35;", "&copy;", "\u00e9", "\u4e2d", "\U0001f600", "\u200d", "\ufeff", "\xa0", "\r\n", "\r", "\x0b", "\x00"[:0], "\x7f", "\x1b[0m",
]
frag = st.sampled_from(FRAGS)


def bulk(ch, n):
    return ch * n


soup_piece = st.one_of(frag, frag, frag, word, word, st.text(max_size=4),
                       st.builds(bulk, st.sampled_from(["*", "_", "`", "[", "(", "{", "<", "|", ">", "#", " ", "\t", "-", "=", "~", "^", ":", "+", "a", "é", "\n", "!", "[[", "{{", "|-", "> ", "- "]),
                                 st.integers(2, 40)))
soup = st.lists(soup_piece, max_size=25).map("".join)

# well-formed blocks, so that structure (not only lexical noise) is reached
inline = st.one_of(word, word, st.sampled_from(["*a*", "**b**", "`c`", "[d](e)", "~~f~~", "==g==", "x^2^", "H~2~O", "[^1]", "$m$", ":smile:", "[[W]]", "![i](j.png)", "{++k++}", "\"l\"", "[%title]", "<b>n</b>", "[@o]", "[#p]", "^[q]", "\\*", "&amp;", "HTML", "a\\|b"]))
line = st.lists(inline, min_size=1, max_size=5).map(" ".join)


def table(rows, aligns):
    out = []
    w = max(len(r) for r in rows)
    for i, r in enumerate(rows):
        out.append("| " + " | ".join(r) + " |")
        if i == 0:
            out.append("|" + "|".join((aligns + ["---"] * w)[:w]) + "|")
    return "\n".join(out) + "\n"


cell = st.one_of(line, line, st.sampled_from(["", "^^", "<<", ":a:", ":b", "c:", "===", "---", " "]))
table_b = st.builds(table, st.lists(st.lists(cell, min_size=1, max_size=4), min_size=1, max_size=5),
                    st.lists(st.sampled_from(["---", ":--", "--:", ":-:", "==="]), max_size=4))
block = st.one_of(
    line.map(lambda s: s + "\n"), st.builds(lambda n, s: "#" * n + " " + s + "\n", st.integers(1, 6), line),
    st.lists(line, min_size=1, max_size=4).map(lambda l: "".join("- " + x + "\n" for x in l)),
    st.lists(line, min_size=1, max_size=4).map(lambda l: "".join("%d. %s\n" % (i + 1, x) for i, x in enumerate(l))),
    st.lists(line, min_size=1, max_size=3).map(lambda l: "".join("> " + x + "\n" for x in l)),
    table_b, st.builds(lambda l, c: "```%s\n%s\n```\n" % (l, c), st.sampled_from(["", "c", "table", "{.x}"]), soup),
    st.builds(lambda t, d: t + "\n" + "".join(": " + x + "\n" for x in d), line, st.lists(line, min_size=1, max_size=3)),
    st.builds(lambda t, l: "> [!%s]\n> %s\n" % (t, l), st.sampled_from(["NOTE", "tip", "WARNING", "x"]), line),
    st.builds(lambda a, l: "::: %s\n%s\n:::\n" % (a, l), st.sampled_from(["note", "{.a}", "{#b k=v}", ">aside {.x}"]), line),
    st.builds(lambda l: "[^1]: " + l + "\n", line), st.builds(lambda l: "    " + l + "\n", line),
    st.builds(lambda l: "<div markdown=\"1\">\n" + l + "\n</div>\n", line),
    st.sampled_from(["---\n", "{:.cls #id}\n", "{:ref: .c}\n", "<!--TOC-->\n", "*[HTML]: Hyper\n", "[b]: http://e.com\n", "$$\nx\n$$\n", "<!-- c -->\n", "<!--BREAK-->\n", "{: ref}\n"]),
    soup)
sdoc = st.builds(lambda m, bs: m + "\n".join(bs), st.sampled_from(["", "", "", "---\ntitle: T\nk: v\n---\n", "title: T\nk: v\n\n", "% T\n% A\n"]),
                 st.lists(block, max_size=7))
doc = st.one_of(soup, sdoc, sdoc)

FORMATS = list(range(12))
BOOLS = """enable_tables enable_footnotes enable_definition_lists enable_smart_typography enable_math enable_critic_markup
enable_wiki_links enable_task_lists enable_attributes enable_callouts enable_marked_extensions enable_divs enable_spans strip_metadata
enable_metadata_variables enable_metadata_transforms unsafe validate_utf8 github_pre_lang standalone pretty hardbreaks nobreaks
generate_header_ids header_anchors relaxed_tables per_cell_alignment allow_mixed_list_markers allow_alpha_lists enable_sup_sub
enable_strikethrough enable_autolink obfuscate_emails enable_image_captions title_captions_only enable_citations suppress_bibliography
link_citations show_tooltips enable_indices enable_mmark_index_syntax enable_textindex_syntax enable_leanpub_index_syntax suppress_index
group_index_by_letter wikilink_sanitize enable_aria enable_emoji_autocorrect code_line_numbers enable_widont code_is_poetry
enable_markdown_in_html random_footnote_ids enable_hashtags style_hashtags proofreader_mode hr_page_break title_from_h1
page_break_before_footnotes""".split()


@st.composite
def options(draw, formats=True):
    o = {"mode": draw(st.integers(0, 4))}
    for k in draw(st.lists(st.sampled_from(BOOLS), max_size=6, unique=True)):
        o[k] = int(draw(st.booleans()))
    if draw(st.integers(0, 3)) == 0:
        o["critic_mode"] = draw(st.integers(0, 2))
        o["id_format"] = draw(st.integers(0, 2))
        o["caption_position"] = draw(st.integers(0, 1))
        o["wikilink_space"] = draw(st.integers(0, 3))
    if formats and draw(st.booleans()):
        o["output_format"] = draw(st.sampled_from(FORMATS))
        if draw(st.booleans()):
            o["terminal_width"] = draw(st.sampled_from([1, 5, 20, 40, 80, 200]))
    return o


def opttext(o):
    o = dict(o)
    return "mode=%d\n" % o.pop("mode", 4) + "".join("%s=%s\n" % (k, v) for k, v in o.items())
