"""Documents for the conformance checks, beyond those the specification enumerates."""
import random
import re
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")


def families():
    """The families of spec/Families.tla: name -> (beginnings, tokens)."""
    text = open(os.path.join(SPEC, "Families.tla"), encoding="utf-8").read()
    text = text[text.index("FamilyTable == ["):]
    lit = r'"((?:[^"\\]|\\.)*)"'

    def strings(part):
        return [s.encode().decode("unicode_escape") for s in re.findall(lit, part)]

    out = {}
    for m in re.finditer(r"(\w+) \|-> << Toks\(<<(.*?)>>\),\s*Toks\(<<(.*?)>>\) >>", text, re.S):
        out[m.group(1)] = (strings(m.group(2)), strings(m.group(3)))
    assert len(out) >= 22, sorted(out)
    return out


SOUP = [
    "a", "b", " ", "\n", "\n", "\n\n", "> ", ">", "- ", "* ", "+ ", "1. ", "i) ", "(a) ", "- [x] ", "- [ ] ", ": ",
    "# ", "## ", "#", "```\n", "```", "``", "`", "~~~\n", "::: ", "::: c\n", ":::\n", "|", "| ", "|a|\n", "|-|\n",
    "|:-:|", "^ ", "^", "[", "]", "(", ")", "[^a]", "[^a]: ", "[a]: ", "[a]", "{", "}", "{.a}", "{#b}", '{a="b"}',
    "{%c%}", '{a="', '"', "'", "*", "_", "~", "{-", "-}", "{+", "+}", "{=", "=}", "{*", "*}", "{_", "_}", "{~", "~}",
    "{^", "^}", "{'", "'}", '{"', '"}', "\\", "\\\n", "\\ ", "\\*", "<", "<a:b>", "<a@b>", ">", ":a:", ":", "...",
    "..", "--", "---", "-", "$", "$$", "!", "![", "](u)", "\t", "  ", "   ", "\u00e9", "\u00a0", "\r\n", "\x0c", "0",
    "{=html}", "```=html\n", "%", "=", ".", "#", ";", "&",
]

WORDS = ["a", "b", "word", "A", "x1", "\u00e9t\u00e9", "\u65e5", "9", "don't", "a-b", "a_b", "1.5", "C:", "&", "<b>", '"q"',
         "'q'", "--", "...", "---", ":s:", "\\*", "a.b", "f(x)", "[", "]", "{", "}", "*", "_", "\\", "|", "\U0001f600"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    # --- attributes ---------------------------------------------------------
    def attr(self):
        r = self.r
        parts = []
        for _ in range(self.pick([0, 1, 1, 1, 2, 3])):
            parts.append(self.pick([".k", ".m", ".k2", "#i", "#j", "a=b", 'a="c d"', 'b="\\""', "%note%", "class=z", "id=y",
                                    'c=""', "k-2=v", 'd="e\nf"', ":x=1", "a=\u00e9" if r.random() < .05 else ".n"]))
        sep = self.pick([" ", " ", "\n", "  "])
        return "{" + self.pick(["", "", " "]) + sep.join(parts) + self.pick(["", "", " "]) + "}"

    # --- inline -------------------------------------------------------------
    def inline(self, depth):
        r = self.r
        out = []
        for _ in range(r.randint(1, 4 if depth else 3)):
            k = r.random()
            if depth <= 0 or k < .38:
                out.append(self.pick(WORDS))
            elif k < .58:
                a, b = self.pick([("*", "*"), ("_", "_"), ("{*", "*}"), ("{_", "_}"), ("^", "^"), ("~", "~"), ("{^", "^}"),
                                  ("{~", "~}"), ("{+", "+}"), ("{-", "-}"), ("{=", "=}"), ("'", "'"), ('"', '"')])
                out.append(a + self.inline(depth - 1) + b)
            elif k < .72:
                body = self.inline(depth - 1)
                out.append(self.pick(["", "", "!"]) + "[" + body + "]" + self.pick(
                    ["(u)", "(u)", "(a b)", "()", "[]", "[a]", "[b c]", "[A]", "{.k}", "", "(u\nv)", "[^a]", "(<x>)", "[a *b*]"]))
            elif k < .82:
                n = self.pick([1, 1, 2, 3])
                out.append(self.pick(["", "", "", "$", "$$"]) + "`" * n + self.pick(
                    ["v", "v w", " v ", "`v", " `v` ", "\\", "v\nw", "*v*", "{.k}"]) + "`" * n
                    + self.pick(["", "", "", "{=html}", "{=tex}"]))
            elif k < .87:
                out.append(self.pick(["<http://a>", "<a@b>", "<a:b\\c>", ":sym:", "[^a]", "[^b]", "[^n o]"]))
            else:
                out.append(self.pick(["\\ ", "\\\n", "\\ \n", "\n", "...", "--", "---", "----", "'", '"', "{'", "'}", '{"', '"}',
                                      "\\[", "\\\\", "\\`", "{", "}", "`", "{% c %}"]))
            if self.chance(.13):
                out.append(self.attr())
            if self.chance(.5):
                out.append(self.pick([" ", " ", " ", "\n", "  "]))
        return "".join(out)

    # --- blocks: lists of lines ---------------------------------------------
    def lines(self, s):
        return s.split("\n")

    def prefixed(self, ls, first, rest, lazy=.1):
        out = []
        for i, l in enumerate(ls):
            if i == 0:
                out.append(first + l)
            elif l == "":
                out.append(rest.rstrip())
            elif self.chance(lazy):
                out.append(l)
            else:
                out.append(rest + l)
        return out

    def marker(self):
        return self.pick(["- ", "* ", "+ ", "1. ", "2) ", "(3) ", "a. ", "i. ", "iv) ", "(A) ", "X. ", "- [ ] ", "- [x] ",
                          "* [X] ", ": ", "b) ", "c. ", "v. ", "0. ", "12. "])

    def numeral(self, style, n):
        if style == "1":
            return str(n)
        if style.lower() == "a":
            t = chr(97 + (n - 1) % 26)
        else:
            t = ""
            for v, d in ((1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"),
                         (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")):
                while n >= v:
                    t, n = t + d, n - v
        return t.upper() if style.isupper() else t

    def markers(self):
        """Markers of a list: mostly consecutive, sometimes of another style."""
        if self.chance(.5):
            m = self.marker()
            return [m] + [self.marker() if self.chance(.15) else m for _ in range(3)]
        style, (a, b) = self.pick("1aAiI"), self.pick([("", "."), ("", ")"), ("(", ")")])
        n = self.pick([1, 1, 2, 3, 4, 5, 9, 10, 11, 12, 22, 26, 49, 50, 99, 100, 499, 500, 999, 1000, 1994, 4888])
        out = []
        for _ in range(4):
            if self.chance(.1):
                style = self.pick("1aAiI")
            out.append(a + self.numeral(style, n) + b + " ")
            n += self.pick([1, 1, 1, 1, 1, 0, 2])
        return out

    def block(self, depth):
        r = self.r
        k = r.random()
        out = []
        if self.chance(.16):
            out += self.lines(self.attr())
            if self.chance(.1):
                out.append("")
        if depth <= 0 or k < .25:
            out += self.lines(self.inline(2))
        elif k < .35:
            h = "#" * (r.randint(1, 4) if self.chance(.8) else r.randint(5, 12))
            ls = self.lines(self.inline(1))
            out += [(h + " " if i == 0 or self.chance(.5) else "") + l for i, l in enumerate(ls)]
        elif k < .45:
            out += self.prefixed(self.blocks(depth - 1, 2), "> ", "> ")
        elif k < .65:
            loose = self.chance(.3)
            for m in self.markers()[:r.randint(1, 4)]:
                body = self.blocks(depth - 1, 1 if self.chance(.6) else 2)
                out += self.prefixed(body, m, " " * (len(m) if self.chance(.8) else 2))
                if loose or m == ": ":
                    out.append("")
        elif k < .72:
            f = self.pick(["```", "~~~", "````", "~~~~"])
            out += [f + self.pick(["", " rust", "=html", " =tex", "rust", " a b"])]
            out += [self.pick(["code", "  code", "", "\tc", "> c", "{.k}", "```", "*c*", "\\*"]) for _ in range(r.randint(0, 3))]
            out += [f + self.pick(["", "", "`" if f[0] == "`" else "~", " "])]
        elif k < .78:
            f = ":" * r.randint(3, 4)
            out += [f + self.pick(["", " cls", "cls", " a b"])] + self.blocks(depth - 1, 2) + [f]
        elif k < .88:
            n = r.randint(1, 3)
            for _ in range(r.randint(1, 4)):
                if self.chance(.3):
                    out.append("|" + "|".join(self.pick(["-", "--", ":-", "-:", ":-:", " --- "]) for _ in range(n)) + "|")
                else:
                    out.append("|" + "|".join(" " + self.inline(1).replace("\n", " ") + " " if self.chance(.9) else ""
                                              for _ in range(n if self.chance(.8) else n + 1)) + "|")
            if self.chance(.3):
                out += ([""] if self.chance(.3) else []) + self.lines("^ " + self.inline(1))
        elif k < .93:
            out += ["[" + self.pick(["a", "b c", "A", "a *b*", "zz"]) + "]: " + self.pick(["u", "http://x", "u\n  v", "", "u  v"])]
            out = "\n".join(out).split("\n")
        elif k < .97:
            out += self.prefixed(self.blocks(depth - 1, 2), "[^" + self.pick(["a", "b", "n o"]) + "]: ", "  ")
        else:
            out.append(self.pick(["***", "* * *", "---", "- - -", "{.k}", ":::", "```", "***a", "-*-"]))
        return out

    def blocks(self, depth, n):
        out = []
        for i in range(self.r.randint(1, n)):
            if i and self.chance(.85):
                out.append("")
                if self.chance(.1):
                    out.append("")
            out += self.block(depth)
        return out

    def document(self):
        s = "\n".join(self.blocks(2, 4))
        if self.chance(.8):
            s += "\n"
        return s

    def mutate(self, s):
        for _ in range(self.r.randint(1, 3)):
            i = self.r.randrange(len(s) + 1)
            k = self.r.random()
            if k < .3 and s:
                j = min(len(s), i + self.r.randint(1, 4))
                s = s[:i] + s[j:]
            elif k < .75:
                s = s[:i] + self.pick(SOUP) + s[i:]
            elif k < .9 and s:
                j = min(len(s), i + self.r.randint(1, 12))
                s = s[:j] + s[i:j] + s[j:]
            else:
                j = self.r.randrange(len(s) + 1)
                a, b = min(i, j), max(i, j)
                s = s[:a] + s[b:b + 3] + s[a:b] + s[b + 3:]
        return s

    def soup(self, tokens, distinct, most):
        sub = [self.pick(tokens) for _ in range(self.r.randint(2, distinct))]
        if self.chance(.2):           # some of them in longer runs
            sub += [self.pick("`~:-*_.#|\\^'\"![]()<>{}= \n>a0") * self.r.randint(3, 12) for _ in range(2)]
        return "".join(self.pick(sub) for _ in range(self.r.randint(1, most)))


def documents(seed, count, focus, fams, seeds=()):
    """count documents: family walks, mixtures of families, soups, structured ones and mutations."""
    g = Gen(seed)
    names = sorted(fams)
    out = []
    while len(out) < count:
        k = g.r.random()
        if k < .40:
            f = g.pick(focus) if g.chance(.7) else g.pick(names)
            toks = fams[f][1]
            s = g.pick(fams[f][0]) + "".join(g.pick(toks) for _ in range(g.r.randint(4, 11)))
        elif k < .55:
            a, b = g.pick(focus), g.pick(names)
            toks = fams[a][1] + fams[b][1]
            s = g.pick(fams[g.pick([a, b])][0]) + g.soup(toks, 9, 12)
        elif k < .72:
            s = g.soup(SOUP, 9, 14)
        elif k < .80 and seeds:
            s = g.mutate(g.pick(seeds)) if g.chance(.8) else g.pick(seeds)
        elif k < .90:
            s = g.document()
        else:
            s = g.mutate(g.document())
        if len(s) <= 500:
            out.append(s)
    return out


def large(n):
    """Documents with n of something: counters, lengths and depths beyond the small ones."""
    return {
        "fnrefs": "".join("[^%d]"%i for i in list(range(n))+[n-1,n//2,0])+"\n\n"+"".join("[^%d]: x\n\n"%i for i in range(n)),
        "heads": "# a\n\n"*n,
        "headtext": "".join("# a%d\n\n"%i for i in range(n)),
        "cols": "|a"*n+"|\n"+"|:-|-:|-"*(n//3)+"|\n"+"|b"*n+"|\n",
        "rows": "|a|b|\n"*n,
        "items": "- a\n"*n,
        "nums": "".join("%d. a\n"%(i+1) for i in range(n)),
        "start": "18446744073709551615. a\n\nb\n\n18446744073709551616. a\n\nc\n\n300. x\n",
        "roman": "mmmcmxcix. a\n\nx\n\ncccc) a\n",
        "quotes": "> "*n+"a\n",
        "qlines": "> a\n"*n,
        "divs": "".join(":"*(n+3-i)+"\n" for i in range(min(n,60)))+"a\n",
        "nestlist": "".join("  "*i+"- a\n\n" for i in range(min(n,60))),
        "openers": "_a [b {=c \"d "+"*a "*n+"d\" c=} b](u) a_\n\n"+"*a "*n,
        "emph": "*"*n+"a"+"*"*n+"\n",
        "emph2": "_*"*n+"a"+"*_"*n+"\n",
        "brackets": "["*n+"a"+"]"*n+"\n",
        "links": "[a](b) "*n,
        "imgs": "![a][b] "*n+"\n\n[b]: u\n",
        "classes": "{"+".a "*n+"}\nb\n",
        "pairs": "a{"+"".join("k%d=v "%i for i in range(n))+"}\n",
        "groups": "a"+"{.b}"*n+"\n",
        "bgroups": "{.b}\n"*n+"a\n",
        "fence": "`"*n+" x\na\n"+"`"*(n-1)+"\n"+"`"*n+"\n",
        "code": "```\n"+"a\n"*n+"```\n",
        "head": "#"*n+" a\n",
        "para": "a\n"*n,
        "hard": "a\\\n"*n,
        "long": "a"*70000+"\n",
        "defs": "".join("[%d]\n\n[%d]: u%d\n\n"%(i,i,i) for i in range(n)),
        "deflines": "[a]: b\n"+" c\n"*n+"\n[a]\n",
        "esc": "\\*"*n+"\n",
        "dashes": "-"*n+"x\n",
        "dots": "."*n+"\n",
        "quotes2": "\"'"*n+"a"+"'\""*n+"\n",
        "attrlines": "a{k=\""+"b\n"*n+"\"}\n",
        "battrlines": "{k=\"b\n"+" b\n"*n+" \"}\na\n",
        "indent": " "*n+"a\n",
        "indentlist": "- a\n\n"+" "*n+"b\n",
        "dest": "[a]("+"b\n"*n+")\n",
        "blank": "a\n"+"\n"*n+"b\n",
        "verbs": "`a` "*n,
        "verbrun": "`"*min(n,255)+"a"+"`"*min(n,255)+"\n",
        "verbwide": "`"*n+"a"+"`"*(n%256)+"\n\n"+"`"*257+"a`\n",
        "fencewide": "`"*n+"\na\n"+"`"*(n%256)+"\n"+"`"*n+"\n\n"+":"*n+"\na\n"+":"*(n%256)+"\n"+":"*n+"\nb\n",
        "dl": ": a\n\n  b\n\n"*n,
        "tasks": "- [x] a\n- [ ] b\n"*n,
        "caption": "|a|\n^ "+"b\n"*n,
        "sym": ":a:"*n+"\n",
        "fnnest": "[^0]\n\n"+"".join("[^%d]: [^%d]\n\n"%(i,i+1) for i in range(n)),
        "seps": "|a|\n|-|\n"*n,
        "fnlines": "[^a]\n\n[^a]: b\n\n"+"  c\n\n"*n,
        "auto": "<a:b>"*n+"\n",
        "sections": "".join("#"*(i%9+1)+" a\n\n" for i in range(n)),
        "math": "$`a`"*n+"\n",
        "rawi": "`a`{=html}"*n+"\n",
        "nbsp": "\\ "*n+"a\n",
        "utf": "é😀"*n+"\n",
        "lists2": "- a\n\n+ b\n\n"*n,
        "divsq": "::: a\n:::\n"*n,
        "label": "["+"a "*n+"][]\n\n["+"a "*n+"]: u\n",
        "ordchange": "a. x\n"*n,
    }


# Every character in every place of the syntax: $ is where it goes.
SLOTS = r"""
a:$b:c|:$:|:a$|<a$b:c>|<$:b>|<a:$>|<a@$>|<$@b>|`a`{=$}|`a`{=a$}|`a`{$=a}|a{$}|a{.$}|a{.a$}|a{#$}|a{a$=b}|a{$=b}|a{a=$}|a{a=b$}|a{a="$"}|a{a="\\$"}
a{.a$.b}|a{%$%}|a{a="b"$.c}|*a*$|*a*{$}|[a]{.b}$|[a]${.b}|a$ {.b}|\\$a|a\\$|a\\\\$|*$a*|*a$*|$*a*|_a$_|$_a_|_$a_|{_$_}|'$a'|a$'b'|'a'$b|"a$"|$"a"|a"$"b|'$|{'$'}
[a]($)|[a](b$c)|[a](b\\$c)|[a$](b)|[a]$(b)|[a](b)$|[a][$]|[a][b$]\n\n[b$]: c|[a]$[b]\n\n[b]: c|![$](b)|!$[a](b)|$![a](b)|[^$]|[^a$]\n\n[^a$]: b|[$^a]|[$a]{.b}
a-$|a--$b|a---$|a.$.|..$|{$a$}|{$a}|{*$*}|{=$=}|{=a$}|{+a$+}|{-$a-}|{$~a~}|$$`a`|a$\x24`b`|\x24`a$`|\x24`a`$|`$a`|`a$`|` $`|``$`|`a`$|~$~|^a$^|~a~$|a\n$b|a$\nb|a\\$\nb|a \\$\n
$|$ a|$a|$$ a|$$$|$$$$|$ $ $|#$a|# a$|##$|# $|-$a|- $|- a\n$ b|- a\n $b|- a\n  $b|- a\n$b|- [$] a|- [x]$a|- [x$ a|1$ a|$. a|a$ b|($) a|(a$ b|1.$a|$1. a|1. a\n$. b|i$ a\n\nv$ b
>$a|> a\n>$b|> a\n$b|:$a|: a\n$ b|: a\n\n$ b|```$\na\n```|``` a$\nb\n```|``` $a\nb\n```|``` =a$\nb\n```|``` =$\nb\n```|~~~$\na\n~~~|```\na\n```$|```\n$```\n```|```\na$\n```
:::$\na\n:::|::: a$\nb\n:::|::: $a\nb\n:::|::: a\nb\n:::$|:::a$b\n:::|::: a\n$:::\n|***$|*$**|* $ * *|**$*|-$-$-|$***|a\n$***
|a$||\x7c$\x7c\n\x7c-\x7c|\x7ca\x7c\n\x7c-$\x7c\n\x7cb\x7c|\x7ca\x7c\n\x7c$-\x7c\n\x7cb\x7c|\x7ca\x7c$\n\x7c-\x7c|\x7ca\x7c\n^ $b|\x7ca\x7c\n^$b|\x7ca\x7c\n$^ b|\x7ca\x7c\n\x7c--$--\x7c\n\x7cb\x7c|\x7ca\\$\x7c|\x7ca$\x7cb\x7c|\x7c`a$\x7c`\x7c|\x7ca\x7c\n$\x7cb\x7c
[a]:$b\n\n[a]|[a]: b$c\n\n[a][]|[$]: b\n\n[$][]|[a$]: b\n\n[a$][]|[a]: b\n$c\n\n[a][]|[a]: b\n $c\n\n[a][]|[a]$: b\n\n[a][]|[a]: $\n\n[a][]|[^a]:$b\n\n[^a]|[^a$]: b\n\n[^a$]|[^a]: b\n$c\n\n[^a]|[^a]: b\n\n$ c\n\n[^a]
{$}\na|{.a$}\nb|{.a}$\nb|{.a\n$.b}\nc|{.a\n $b}\nc|{a="\n$b"}\nc|{.a}\n$|{.a}\n$ b|# a$b\n\n[a$b][]|# $\n\n[$][]|{#$}\n# a|# a\n\n# a$|# \\$a|# a `$`|# $a$\n\n# $a$|# a$*b*| $a|  $ a|a\n\n $b|- a\n\n $b|- a\n\n  $b
<$>|<$a>|a$b|a$$b|a $ b|a{$|a$}|{$ .a}|{.a $}|$:a:|:a:$|<a:b>$|$<a:b>|[^a]$\n\n[^a]: b|![a$](b)|![a](b$)|![a][$]|[a](b){$}|[a][b]{$}|`a`{$}|<a:b>{$}|:a:{$}|[^a]{$}|*a*{.b}{$}|"a"{$}|$`a`{.b}
""".strip()


ATTR_SLOTS = r"""
{$}|{.$}|{.a$}|{#$}|{#a$}|{a$}|{a$=b}|{$=b}|{a=$}|{a=b$}|{a="$"}|{a="b$"}|{a="\$"}|{a="b\$c"}|{%$%}|{%a$|{.a}$|{$ .a}|{.a$.b}|{.a $b=c}|{a=b$.c}|{a=b$c}|{a="b"$.c}|{%c%$.a}
{$%c%}|{.a$#b}|{#a$.b}|{a=$"b"}|{a=b$"c"}|{ $ }|{.a}$ {.b}|{.a}{$}|{$}{.a}|{.a}{.$}|{a="$\"}|{a="\\$"}|{a="b\n$c"}|{.a\n$b=c}|{%$\n%}|{a-$=b}|{a=-$}|{a=:$}|{.:$}|{#_$}|$|$.a}|{{$}|{.a$
""".strip()


def slots(table=SLOTS):
    out = []
    for line in table.split("\n"):
        for t in line.split("|"):
            t = t.replace("\\\\", "\\").replace("\\n", "\n").replace("\\x7c", "|")
            for c in [chr(k) for k in range(128)] + ["\u00e9", "\u00a0", "\u2003", "\U0001f600"]:
                out.append(t.replace("$", c).replace("\\x24", "$"))
    return [d for d in dict.fromkeys(out) if d]
