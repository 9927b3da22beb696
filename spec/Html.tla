-------------------------------- MODULE Html --------------------------------
(***************************************************************************)
(* The HTML renderer as a state machine driven by public events            *)
(* << tag, payload, attributes, ... >> (see Djot).                         *)
(*                                                                         *)
(* A layout is [min, ind, lvl]: no whitespace at all, or every block on a  *)
(* line of its own indented by its depth (plus lvl) times the string ind.  *)
(*                                                                         *)
(* State r:                                                                *)
(*   out    bytes written by the current step                              *)
(*   depth  block depth, first: nothing has been rendered yet              *)
(*   raw    "" | "html" | "other": inside raw content                      *)
(*   alt    number of open images; inside, content is alternative text     *)
(*   tight  tightness of the open lists, innermost last                    *)
(*   ign    inside a link definition                                       *)
(*   open   footnote definitions being collected << label, events >>       *)
(*   fns    collected footnotes << label, events >>, latest last           *)
(*   refs   labels in order of first reference                             *)
(*   num    number of footnotes rendered so far                            *)
(***************************************************************************)
EXTENDS Attr

Literals == {"<blockquote", "<ul", "<ol", " start=\"", " type=\"", "\"", "<li", "<dl", "<dd",
    "<table", "<tr", "<section", "<div", "<p", "<h", "<td", "<th", "<caption", "<dt", "<pre",
    "<span", "<a", "<a href=\"", "mailto:", "<img", "<code", "<sub", "<sup", "<ins", "<del",
    "<strong", "<em", "<mark", " ", "=\"", " class=\"", " id=\"", "task-list", "math inline",
    "math display", " style=\"text-align: ", ";\">", "><code>", "><code class=\"language-",
    "\">", " alt=\"", ">\\[", ">\\(", "\\]</span>", "\\)</span>", ">",
    "<input disabled=\"\" type=\"checkbox\" checked=\"\"/>", "<input disabled=\"\" type=\"checkbox\"/>",
    "</blockquote>", "</ul>", "</ol>", "</li>", "</dl>", "</dd>", "</table>", "</tr>", "</section>",
    "</div>", "</p>", "</h", "</td>", "</th>", "</caption>", "</dt>", "</code></pre>", "</span>",
    "</a>", "\" src=\"", "</code>", "</sub>", "</sup>", "</ins>", "</del>", "</strong>", "</em>",
    "</mark>", "&lt;", "&gt;", "&amp;", "&quot;", "&nbsp;", "<br>", "<hr", "<a id=\"fnref",
    "\" href=\"#fn", "\" role=\"doc-noteref\"><sup>", "</sup></a>", ":", "left", "right", "center",
    "<section role=\"doc-endnotes\">", "<hr>", "<ol>", "<li id=\"fn", "<p>", "<a href=\"#fnref",
    "\" role=\"doc-backlink\">", "a", "A", "i", "I"}
L == [s \in Literals |-> B(s)]
Arrow == << 226, 134, 169, 239, 184, 142 >>                 \* U+21A9 U+FE0E
Quote == [t \in {"lsq", "rsq", "ldq", "rdq", "ell", "end", "emd"} |->
    CASE t = "lsq" -> << 226, 128, 152 >> [] t = "rsq" -> << 226, 128, 153 >>
      [] t = "ldq" -> << 226, 128, 156 >> [] t = "rdq" -> << 226, 128, 157 >>
      [] t = "ell" -> << 226, 128, 166 >> [] t = "end" -> << 226, 128, 147 >>
      [] OTHER -> << 226, 128, 148 >>]

DefaultLayout == [min |-> FALSE, ind |-> << >>, lvl |-> 0]
Render0(lay) ==
    [lay |-> lay, out |-> << >>, depth |-> IF lay.min THEN 0 ELSE lay.lvl, first |-> TRUE,
     raw |-> "", alt |-> 0, tight |-> << >>, ign |-> FALSE,
     open |-> << >>, fns |-> << >>, refs |-> << >>, num |-> 0]

W(r, bytes) == [r EXCEPT !.out = @ \o bytes]

(* --- escaping ------------------------------------------------------------ *)
EscByte(c, attr) ==
    CASE c = 60 -> L["&lt;"] [] c = 62 -> L["&gt;"] [] c = 38 -> L["&amp;"]
      [] c = 34 /\ attr -> L["&quot;"] [] OTHER -> << c >>
NeedsEsc == Table({60, 62, 38, 34})
Esc(b, attr) ==
    IF SelectInSeq(b, LAMBDA c : NeedsEsc[c + 1]) = 0 THEN b
    ELSE FoldLeft(LAMBDA acc, c : acc \o EscByte(c, attr), << >>, b)

(* --- whitespace between blocks --------------------------------------------- *)
Indent(r) == IF r.lay.min \/ r.lay.ind = << >> THEN r
             ELSE W(r, FoldLeft(LAMBDA acc, i : acc \o r.lay.ind, << >>, [i \in 1..r.depth |-> i]))
(* Start a line for a block; a block container opens (+1) or closes (-1).   *)
Line(r, change) ==
    IF r.lay.min THEN r
    ELSE LET r1 == IF r.first THEN r ELSE W(r, << 10 >>)
             r2 == Indent(IF change < 0 THEN [r1 EXCEPT !.depth = @ - 1] ELSE r1) IN
         IF change > 0 THEN [r2 EXCEPT !.depth = @ + 1] ELSE r2

Inlines == {"doc", "span", "link", "img", "verb", "imath", "dmath", "rawi", "sub", "sup",
            "ins", "del", "strong", "em", "mark"}
IsBlock(c) == c[1] \notin Inlines
IsBlockContainer(c) == c[1] \in {"quote", "list", "li", "task", "dl", "dd", "fn", "table", "row",
                                 "section", "div"}
Tight(r) == r.tight # << >> /\ r.tight[Len(r.tight)]

(* --- attributes -------------------------------------------------------------- *)
(* Class implied by the element itself.                                     *)
OwnClass(c) ==
    CASE c[1] = "list" /\ c[2] = "t" -> L["task-list"]
      [] c[1] = "imath" -> L["math inline"]
      [] c[1] = "dmath" -> L["math display"]
      [] c[1] = "div" -> c[2]
      [] OTHER -> << >>
OwnId(c) ==
    CASE c[1] = "section" -> << c[2] >>
      [] c[1] = "head" /\ ~c[3] -> << c[4] >>
      [] OTHER -> << >>
HtmlAttr(key, val) == L[" "] \o key \o L["=\""] \o val \o L["\""]
Attrs(c, as) ==
    LET ps == AUnique(as)
        own == OwnClass(c)
        Val(p) == Esc(ADisplay(p[2]), TRUE)
                  \o (IF p[1] = S_class /\ own # << >> THEN L[" "] \o own ELSE << >>)
        given == FoldLeft(LAMBDA acc, p : acc \o HtmlAttr(p[1], Val(p)), << >>, ps)
        Has(k) == \E i \in 1..Len(ps) : ps[i][1] = k
        id == IF OwnId(c) # << >> /\ ~Has(S_id) THEN HtmlAttr(S_id, Esc(OwnId(c)[1], TRUE)) ELSE << >>
        cls == IF own # << >> /\ ~Has(S_class) THEN HtmlAttr(S_class, own) ELSE << >> IN
    given \o id \o cls

(* --- elements ------------------------------------------------------------------ *)
NumType == [n \in {"al", "au", "rl", "ru"} |->
    CASE n = "al" -> L["a"] [] n = "au" -> L["A"] [] n = "rl" -> L["i"] [] OTHER -> L["I"]]
OpenTag(c) ==
    CASE c[1] = "quote" -> L["<blockquote"]
      [] c[1] = "list" ->
            IF c[2] # "o" THEN L["<ul"]
            ELSE L["<ol"]
                 \o (IF c[4] \in {<< 48 >>, << 49 >>} THEN << >> ELSE L[" start=\""] \o c[4] \o L["\""])
                 \o (IF c[3] = "dec" THEN << >> ELSE L[" type=\""] \o NumType[c[3]] \o L["\""])
      [] c[1] \in {"li", "task"} -> L["<li"]
      [] c[1] = "dl" -> L["<dl"]
      [] c[1] = "dd" -> L["<dd"]
      [] c[1] = "table" -> L["<table"]
      [] c[1] = "row" -> L["<tr"]
      [] c[1] = "section" -> L["<section"]
      [] c[1] = "div" -> L["<div"]
      [] c[1] = "para" -> L["<p"]
      [] c[1] = "head" -> L["<h"] \o Dec(c[2])
      [] c[1] = "cell" -> IF c[3] THEN L["<th"] ELSE L["<td"]
      [] c[1] = "caption" -> L["<caption"]
      [] c[1] = "dt" -> L["<dt"]
      [] c[1] = "code" -> L["<pre"]
      [] c[1] \in {"span", "imath", "dmath"} -> L["<span"]
      [] c[1] = "link" ->
            IF c[3] = "unres" THEN L["<a"]
            ELSE L["<a href=\""] \o (IF c[3] = "email" THEN L["mailto:"] ELSE << >>)
                 \o Esc(c[2], TRUE) \o L["\""]
      [] c[1] = "img" -> L["<img"]
      [] c[1] = "verb" -> L["<code"]
      [] c[1] = "sub" -> L["<sub"]
      [] c[1] = "sup" -> L["<sup"]
      [] c[1] = "ins" -> L["<ins"]
      [] c[1] = "del" -> L["<del"]
      [] c[1] = "strong" -> L["<strong"]
      [] c[1] = "em" -> L["<em"]
      [] OTHER -> L["<mark"]
Alignments == [a \in {"l", "c", "r"} |->
    CASE a = "l" -> L["left"] [] a = "c" -> L["center"] [] OTHER -> L["right"]]
AfterAttrs(c) ==
    CASE c[1] = "cell" /\ c[2] # "n" -> L[" style=\"text-align: "] \o Alignments[c[2]] \o L[";\">"]
      [] c[1] = "code" -> IF c[2] = << >> THEN L["><code>"]
                          ELSE L["><code class=\"language-"] \o Esc(c[2], TRUE) \o L["\">"]
      [] c[1] = "img" -> L[" alt=\""]
      [] c[1] = "imath" -> L[">\\("]
      [] c[1] = "dmath" -> L[">\\["]
      [] OTHER -> L[">"]
Checkbox == [b \in BOOLEAN |-> IF b THEN L["<input disabled=\"\" type=\"checkbox\" checked=\"\"/>"]
                               ELSE L["<input disabled=\"\" type=\"checkbox\"/>"]]
CloseTag(c) ==
    CASE c[1] = "quote" -> L["</blockquote>"]
      [] c[1] = "list" -> IF c[2] = "o" THEN L["</ol>"] ELSE L["</ul>"]
      [] c[1] \in {"li", "task"} -> L["</li>"]
      [] c[1] = "dl" -> L["</dl>"]
      [] c[1] = "dd" -> L["</dd>"]
      [] c[1] = "table" -> L["</table>"]
      [] c[1] = "row" -> L["</tr>"]
      [] c[1] = "section" -> L["</section>"]
      [] c[1] = "div" -> L["</div>"]
      [] c[1] = "head" -> L["</h"] \o Dec(c[2]) \o L[">"]
      [] c[1] = "cell" -> IF c[3] THEN L["</th>"] ELSE L["</td>"]
      [] c[1] = "caption" -> L["</caption>"]
      [] c[1] = "dt" -> L["</dt>"]
      [] c[1] = "code" -> L["</code></pre>"]
      [] c[1] = "span" -> L["</span>"]
      [] c[1] = "link" -> L["</a>"]
      [] c[1] = "verb" -> L["</code>"]
      [] c[1] = "imath" -> L["\\)</span>"]
      [] c[1] = "dmath" -> L["\\]</span>"]
      [] c[1] = "sub" -> L["</sub>"]
      [] c[1] = "sup" -> L["</sup>"]
      [] c[1] = "ins" -> L["</ins>"]
      [] c[1] = "del" -> L["</del>"]
      [] c[1] = "strong" -> L["</strong>"]
      [] c[1] = "em" -> L["</em>"]
      [] OTHER -> L["</mark>"]

(* Anything rendered inside the document; the next block starts a new line. *)
Seen(r) == [r EXCEPT !.first = FALSE]

StartStep(r0, c, as) ==
    LET r == IF IsBlock(c) THEN Line(r0, IF IsBlockContainer(c) THEN 1 ELSE 0) ELSE r0 IN
    IF c[1] = "img"
    THEN IF r.alt > 0 THEN [r EXCEPT !.alt = @ + 1]
         ELSE Seen(W([r EXCEPT !.alt = 1], OpenTag(c) \o Attrs(c, as) \o AfterAttrs(c)))
    ELSE IF r.alt > 0 \/ c[1] = "doc" THEN r
    ELSE IF c[1] = "para" /\ Tight(r) THEN r
    ELSE IF c[1] \in {"rawb", "rawi"} THEN [r EXCEPT !.raw = IF c[2] = B("html") THEN "html" ELSE "other"]
    ELSE LET r1 == IF c[1] = "list" THEN [r EXCEPT !.tight = Append(@, c[Len(c)])] ELSE r
             r2 == W(r1, OpenTag(c) \o Attrs(c, as) \o AfterAttrs(c)) IN
         IF c[1] = "task" THEN Seen(W(Line(r2, 0), Checkbox[c[2]])) ELSE Seen(r2)

RefNumber(r, label) == SelectInSeq(r.refs, LAMBDA l : l = label)

RECURSIVE RenderStep(_, _)
RECURSIVE Notes(_)

(* Footnote events that leave no trace in the output around a paragraph.    *)
Silent(e) == e[1] \in {"bl", "esc"}

(* The content of a footnote: the end tag of a paragraph waits until it is  *)
(* known whether the back link goes before it.  << r, waiting >>.           *)
NoteContent(r, events) ==
    FoldLeft(LAMBDA acc, e :
        IF Silent(e) THEN acc
        ELSE LET r1 == RenderStep(IF acc[2] THEN W(acc[1], L["</p>"]) ELSE acc[1], e) IN
             << r1, e[1] = "E" /\ e[2] = << "para" >> /\ ~Tight(r1) >>,
        << r, FALSE >>, events)

Notes(r) ==
    IF r.num = Len(r.refs) THEN r
    ELSE
    LET n == Dec(r.num + 1)
        f == SelectLastInSeq(r.fns, LAMBDA x : x[1] = r.refs[r.num + 1])
        r1 == W(Line([r EXCEPT !.num = @ + 1], 0), L["<li id=\"fn"] \o n \o L["\">"])
        nc == IF f = 0 THEN << r1, FALSE >> ELSE NoteContent(r1, r.fns[f][2])
        r2 == IF nc[2] THEN nc[1] ELSE W(Line(nc[1], 0), L["<p>"])
        r3 == W(r2, L["<a href=\"#fnref"] \o n \o L["\" role=\"doc-backlink\">"] \o Arrow
                    \o L["</a>"] \o L["</p>"]) IN
    Notes(W(Line(r3, 0), L["</li>"]))

Epilogue(r) ==
    LET r1 == IF r.refs = << >> THEN r
              ELSE LET a == W(Line(r, 0), L["<section role=\"doc-endnotes\">"])
                       b == W(Line(a, 0), L["<hr>"])
                       c == Notes(W(Line(b, 0), L["<ol>"]))
                       d == W(Line(c, 0), L["</ol>"]) IN
                   W(Line(d, 0), L["</section>"]) IN
    IF r.lay.min THEN r1 ELSE W(r1, << 10 >>)

EndStep(r0, c) ==
    LET r == IF IsBlockContainer(c) THEN Line(r0, 0 - 1) ELSE r0 IN
    IF c[1] = "img"
    THEN Seen([IF r.alt > 1 THEN r
               ELSE W(r, (IF c[2] = << >> THEN << >> ELSE L["\" src=\""] \o Esc(c[2], TRUE)) \o L["\">"])
               EXCEPT !.alt = @ - 1])
    ELSE IF r.alt > 0 THEN r
    ELSE IF c[1] = "doc" THEN Epilogue(r)
    ELSE IF c[1] = "para"
    THEN IF Tight(r) THEN r ELSE Seen(IF r.num > 0 THEN r ELSE W(r, L["</p>"]))
    ELSE IF c[1] \in {"rawb", "rawi"} THEN Seen([r EXCEPT !.raw = ""])
    ELSE Seen(W(IF c[1] = "list" THEN [r EXCEPT !.tight = SubSeq(@, 1, Len(@) - 1)] ELSE r, CloseTag(c)))

AtomStep(r, e) ==
    CASE e[1] = "str" ->
            CASE r.raw = "html" -> W(r, e[2][1])
              [] r.raw = "other" -> r
              [] OTHER -> W(r, Esc(e[2][1], r.alt > 0))
      [] e[1] = "fnref" ->
            LET r1 == IF RefNumber(r, e[2][1]) > 0 THEN r ELSE [r EXCEPT !.refs = Append(@, e[2][1])]
                n == Dec(RefNumber(r1, e[2][1])) IN
            IF r.alt > 0 THEN r1
            ELSE W(r1, L["<a id=\"fnref"] \o n \o L["\" href=\"#fn"] \o n
                       \o L["\" role=\"doc-noteref\"><sup>"] \o n \o L["</sup></a>"])
      [] e[1] = "sym" -> W(r, L[":"] \o e[2][1] \o L[":"])
      [] e[1] = "nbsp" -> W(r, L["&nbsp;"])
      [] e[1] = "hb" -> IF r.alt > 0 THEN W(r, << 10 >>) ELSE Line(W(r, L["<br>"]), 0)
      [] e[1] = "sb" -> Indent(W(r, << 10 >>))
      [] e[1] = "tb" -> W(Line(r, 0), L["<hr"] \o Attrs(<< "tb" >>, e[3]) \o L[">"])
      [] e[1] \in {"esc", "bl", "att"} -> r
      [] OTHER -> W(r, Quote[e[1]])

RenderStep(r, e) ==
    LET n == Len(r.open) IN
    IF e[1] = "S" /\ e[2][1] = "doc"          \* nothing of an earlier document remains
    THEN [Render0(r.lay) EXCEPT !.out = r.out]
    ELSE IF e[1] = "S" /\ e[2][1] = "fn"
    THEN [r EXCEPT !.open = Append(@, << e[2][2], << >> >>)]
    ELSE IF n > 0
    THEN IF e[1] = "E" /\ e[2][1] = "fn"
         THEN [r EXCEPT !.fns = Append(SelectSeq(@, LAMBDA f : f[1] # r.open[n][1]), r.open[n]),
                        !.open = SubSeq(@, 1, n - 1)]
         ELSE [r EXCEPT !.open[n][2] = Append(@, e)]
    ELSE IF e[1] \in {"S", "E"} /\ e[2][1] = "linkdef" THEN [r EXCEPT !.ign = e[1] = "S"]
    ELSE IF r.ign THEN r
    ELSE IF e[1] = "S" THEN StartStep(r, e[2], e[3])
    ELSE IF e[1] = "E" THEN EndStep(r, e[2])
    ELSE Seen(AtomStep(r, e))

(* Bytes written for each event.                                            *)
RenderChunks(lay, evs) ==
    FoldLeft(LAMBDA acc, e :
        LET r == RenderStep([acc[1] EXCEPT !.out = << >>], e) IN << r, Append(acc[2], r.out) >>,
        << Render0(lay), << >> >>, evs)[2]
(* All bytes written.                                                       *)
RenderAll(lay, evs) == FoldLeft(RenderStep, Render0(lay), evs).out
=============================================================================
