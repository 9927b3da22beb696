-------------------------------- MODULE Block --------------------------------
(***************************************************************************)
(* Block structure: what kind of block a line starts, which lines continue *)
(* it, and the tree of blocks of a document.                               *)
(*                                                                         *)
(* A line is << s, e >>, including its newline.  A block event is          *)
(* << kind, node, s, e >> with kinds "E" enter, "X" exit, "I" inline line, *)
(* "A" atom (node <<"bl">>, <<"attr">>, <<"tb">>) and "-" removed.         *)
(* Nodes: <<"doc">> <<"quote">> <<"div", class>> <<"list", type, tight>>   *)
(* <<"li", kind, checked>> <<"fn", label>> <<"table">> <<"row", head>>     *)
(* <<"section", pos>>, and the leaves <<"para">> <<"head", level, section, *)
(* pos>> <<"dt">> <<"cell", align>> <<"caption">> <<"linkdef", label>>     *)
(* <<"code", spec>>.                                                       *)
(* List types: <<"u", bullet>> <<"t", bullet>> <<"d">> and                 *)
(* <<"o", numbering, value, style>>, the value of a decimal being its      *)
(* digits.                                                                 *)
(***************************************************************************)
EXTENDS Attr, Lex

(* --- lines --------------------------------------------------------------- *)
RECURSIVE LinesFrom(_, _)
LinesFrom(src, p) ==
    IF p >= Len(src) THEN << >>
    ELSE LET q == Min2(Find(src, p, Len(src), LAMBDA c : c = 10) + 1, Len(src)) IN
         << << p, q >> >> \o LinesFrom(src, q)
Lines(src) == LinesFrom(src, 0)

TrimStartSp(src, l) == << SkipWs(src, l[1], l[2]), l[2] >>
TrimEndSp(src, l) == << l[1], TrimEnd(src, l[1], l[2]) >>
TrimSp(src, l) == TrimEndSp(src, TrimStartSp(src, l))
IsBlank(src, l) == AllBlank(src, l[1], l[2])

(* --- ordered list markers ---------------------------------------------------- *)
RomanVal == [c \in {105, 118, 120, 108, 99, 100, 109} |->
    CASE c = 105 -> 1 [] c = 118 -> 5 [] c = 120 -> 10 [] c = 108 -> 50
      [] c = 99 -> 100 [] c = 100 -> 500 [] OTHER -> 1000]
RomanLowerSet == {105, 118, 120, 108, 99, 100, 109}
RomanUpperSet == {c - 32 : c \in RomanLowerSet}
Lower(c) == IF c \in UpperSet THEN c + 32 ELSE c
RomanNum(ds) ==    \* a digit smaller than its successor counts negative
    FoldLeftDomain(LAMBDA acc, i :
        LET v == RomanVal[Lower(ds[i])] IN
        IF i < Len(ds) /\ v < RomanVal[Lower(ds[i + 1])] THEN acc - v ELSE acc + v, 0, ds)
NumSet(nb) == CASE nb = "dec" -> DigitSet [] nb = "rl" -> RomanLowerSet [] nb = "ru" -> RomanUpperSet
                [] nb = "al" -> LowerSet [] OTHER -> UpperSet
NumVal(nb, ds) == CASE nb = "dec" -> StripZeros(ds)
                    [] nb \in {"rl", "ru"} -> RomanNum(ds)
                    [] OTHER -> Lower(ds[1]) - 96

(* Marker at src[p..e): << >> or << type, end >>.                           *)
OrderedMarker(src, p, e) ==
    LET paren == At(src, p) = 40
        a == IF paren THEN p + 1 ELSE p IN
    IF a >= e THEN << >>
    ELSE
    LET c == At(src, a)
        nb == IF c \in DigitSet THEN "dec" ELSE IF c \in RomanLowerSet THEN "rl"
              ELSE IF c \in RomanUpperSet THEN "ru" ELSE IF c \in LowerSet THEN "al"
              ELSE IF c \in UpperSet THEN "au" ELSE "" IN
    IF nb = "" THEN << >>
    ELSE
    LET max == CASE nb = "dec" -> 19 [] nb \in {"rl", "ru"} -> 13 [] OTHER -> 1
        q == Find(src, a, Min2(e, a + max), LAMBDA x : x \notin NumSet(nb)) IN
    IF q >= e THEN << >>
    ELSE
    LET st == IF At(src, q) = 41 THEN (IF paren THEN "pp" ELSE "p")
              ELSE IF At(src, q) = 46 /\ ~paren THEN "." ELSE "" IN
    IF st = "" \/ (q + 1 < e /\ ~IsWs(At(src, q + 1))) THEN << >>
    ELSE << << "o", nb, NumVal(nb, Sub(src, a, q)), st >>, q + 1 >>

(* --- what a line starts -------------------------------------------------------- *)
(* [k, a, b, ...] with the span a..b of its marker.                        *)
IsThematic(src, p, e) ==
    Find(src, p, e, LAMBDA c : c # 45 /\ c # 42 /\ ~IsWs(c)) = e
    /\ FoldLeft(LAMBDA n, c : IF c = 45 \/ c = 42 THEN n + 1 ELSE n, 0, Sub(src, p, e)) >= 3
IsTask(src, p, e) ==
    /\ p + 4 < e
    /\ At(src, p + 2) = 91 /\ At(src, p + 3) \in {120, 88, 32} /\ At(src, p + 4) = 93
    /\ p + 5 >= e \/ IsWs(At(src, p + 5))
NoWsBacktickT == Table(WsSet \cup {96})

(* Does p..t start with a pipe and end with one that is not escaped?        *)
PipeLine(src, p, t) ==
    /\ t > p /\ At(src, p) = 124 /\ At(src, t - 1) = 124
    /\ t = p + 1 \/ (t - 2 - FindLast(src, p, t - 1, LAMBDA c : c # 92)) % 2 = 0

Identify(src, s, e) ==
    LET p == SkipWsNotNl(src, s, e)
        ind == p - s
        t == TrimEnd(src, p, e)
        Para == [k |-> "para", a |-> p, b |-> p]
        EndAt(q) == q >= e \/ IsWs(At(src, q)) IN
    IF p = e THEN [k |-> "blank", a |-> p, b |-> p]
    ELSE
    LET c == At(src, p) IN
    CASE c = 10 -> [k |-> "blank", a |-> p, b |-> p + 1]
      [] c = 35 -> LET q == SkipByte(src, p, e, 35) IN
                   IF EndAt(q) THEN [k |-> "head", a |-> p, b |-> q, level |-> q - p] ELSE Para
      [] c = 62 -> IF EndAt(p + 1) THEN [k |-> "quote", a |-> p, b |-> p + 1] ELSE Para
      [] c = 123 -> IF AttrValidLen(src, p, e) = t - p THEN [k |-> "attr", a |-> p, b |-> e] ELSE Para
      [] c = 124 -> IF t - p >= 2 /\ PipeLine(src, p, t)
                    THEN [k |-> "table", a |-> p, b |-> p, cap |-> FALSE, bl |-> FALSE] ELSE Para
      [] c = 91 -> LET q == Find(src, p + 1, e, LAMBDA x : x = 93) IN
                   IF q < e /\ StartsB(src, q + 1, e, 58)
                   THEN LET fn == StartsB(src, p + 1, q, 94) IN
                        [k |-> IF fn THEN "fndef" ELSE "def", a |-> s, b |-> q + 2, ind |-> ind,
                         label |-> Sub(src, IF fn THEN p + 2 ELSE p + 1, q), lb |-> FALSE]
                   ELSE Para
      [] c \in {45, 42} /\ IsThematic(src, p, e) -> [k |-> "tb", a |-> p, b |-> t]
      [] c \in {45, 42, 43} ->
            IF p + 1 < e /\ At(src, p + 1) # 32 THEN Para
            ELSE IF IsTask(src, p, e)
            THEN [k |-> "li", a |-> p, b |-> p + 5, ind |-> ind, ty |-> << "t", c >>, lb |-> FALSE]
            ELSE [k |-> "li", a |-> p, b |-> p + 1, ind |-> ind, ty |-> << "u", c >>, lb |-> FALSE]
      [] c = 58 /\ EndAt(p + 1) ->
            [k |-> "li", a |-> p, b |-> p + 1, ind |-> ind, ty |-> << "d" >>, lb |-> FALSE]
      [] c \in {96, 58, 126} ->
            LET q == SkipByte(src, p, e, c)
                r == SkipWs(src, q, t)
                ok == IF c = 58 THEN Find(src, r, t, LAMBDA x : ~IsName(x)) = t
                      ELSE Find(src, r, t, LAMBDA x : NoWsBacktickT[x + 1]) = t IN
            IF q - p >= 3 /\ ok
            THEN [k |-> "fence", a |-> p, b |-> e, ind |-> ind, len |-> q - p, ch |-> c,
                  spec |-> Sub(src, r, t), closed |-> FALSE, raw |-> << >>]
            ELSE Para
      [] OTHER -> LET m == OrderedMarker(src, p, e) IN
                  IF m = << >> THEN Para
                  ELSE [k |-> "li", a |-> p, b |-> m[2], ind |-> ind, ty |-> m[1], lb |-> FALSE]

(* --- which lines continue a block --------------------------------------------- *)
(* << continues, kind' >> for the next line s..e.                           *)
Continue(src, k, s, e) ==
    CASE k.k \in {"blank", "attr", "tb"} -> << FALSE, k >>
      [] k.k = "fence" ->
            IF k.closed THEN << FALSE, k >>
            ELSE LET n == Identify(src, s, e) IN
            << TRUE,
               IF n.k # "fence" THEN k
               ELSE IF k.raw # << >>       \* in a code block nested in a div
               THEN IF n.ch = k.raw[1] /\ n.len >= k.raw[2] /\ n.spec = << >>
                    THEN [k EXCEPT !.raw = << >>] ELSE k
               ELSE IF n.ch = k.ch THEN [k EXCEPT !.closed = n.len >= k.len /\ n.spec = << >>]
               ELSE IF k.ch = 58 THEN [k EXCEPT !.raw = << n.ch, n.len >>]
               ELSE k >>
      [] k.k = "quote" -> << Identify(src, s, e).k \in {"quote", "para"}, k >>
      [] k.k = "head" -> LET n == Identify(src, s, e) IN
                         << n.k = "para" \/ (n.k = "head" /\ n.level = k.level), k >>
      [] k.k = "para" -> << ~AllBlank(src, s, e), k >>
      [] k.k \in {"li", "fndef"} ->
            LET n == Identify(src, s, e)
                ws == SkipWs(src, s, e) - s
                blank == n.k = "blank" IN
            << blank \/ ws > k.ind \/ (~k.lb /\ n.k = "para"), [k EXCEPT !.lb = blank] >>
      [] k.k = "def" -> << SkipWs(src, s, e) - s > k.ind /\ ~AllBlank(src, s, e), k >>
      [] k.k = "table" ->
            LET p == SkipWs(src, s, e)
                t == TrimEnd(src, p, e) IN
            IF k.cap THEN << p < e, k >>
            ELSE IF p >= e THEN << TRUE, [k EXCEPT !.bl = TRUE] >>
            ELSE IF At(src, p) = 94 /\ p + 1 < t /\ At(src, p + 1) = 32
            THEN << TRUE, [k EXCEPT !.cap = TRUE] >>
            ELSE << ~k.bl /\ PipeLine(src, p, t), k >>

(* Number of lines of the block of kind k starting at lines[i], and its     *)
(* final kind.                                                              *)
RECURSIVE Meter(_, _, _, _)
Meter(src, lines, i, k) ==
    IF i > Len(lines) THEN << i - 1, k >>
    ELSE LET r == Continue(src, k, lines[i][1], lines[i][2]) IN
         IF r[1] THEN Meter(src, lines, i + 1, r[2]) ELSE << i - 1, r[2] >>

(* --- list types ----------------------------------------------------------------- *)
Ambiguous(ty) ==     \* the alphabetic reading of a roman number, or << >>
    IF ty[1] = "o" /\ ty[2] \in {"rl", "ru"} /\ ty[3] \in {1, 5, 10, 50, 100, 500, 1000}
    THEN << "o", IF ty[2] = "rl" THEN "al" ELSE "au",
            CASE ty[3] = 1 -> 9 [] ty[3] = 5 -> 22 [] ty[3] = 10 -> 24 [] ty[3] = 50 -> 12
              [] ty[3] = 100 -> 3 [] ty[3] = 500 -> 4 [] OTHER -> 13, ty[4] >>
    ELSE << >>
Alpha(ty) == ty[2] \in {"al", "au"}
(* Does an item of type b continue a list whose previous item has type a?   *)
(* << >>, or the two types as resolved.                                     *)
ListContinues(a, b) ==
    IF a[1] # "o" \/ b[1] # "o" THEN IF a = b THEN << a, b >> ELSE << >>
    ELSE IF a[4] # b[4] THEN << >>
    ELSE IF a[2] = b[2] THEN << a, b >>
    ELSE LET a2 == Ambiguous(a) b2 == Ambiguous(b) IN
    IF a2 # << >> THEN IF a2[2] = b[2] /\ a2[3] + 1 = b[3] THEN << a2, b >> ELSE << >>
    ELSE IF b2 # << >> THEN IF a[2] = b2[2] /\ a[3] + 1 = b2[3] THEN << a, b2 >> ELSE << >>
    ELSE << >>

(* --- building the tree -------------------------------------------------------------- *)
(* State: ev events, open indices of open Enter events, ol open lists      *)
(* [start, prev, amb (whether all items are ambiguous), depth, at], sec     *)
(* levels of open sections, pb previous block was blank, as index of the    *)
(* first of the directly preceding attribute lines or 0.                    *)
B0 == [ev |-> << >>, open |-> << >>, ol |-> << >>, sec |-> << >>,
       pb |-> FALSE, as |-> 0]

Enter(st, node, s, e) == [st EXCEPT !.open = Append(@, Len(st.ev) + 1), !.ev = Append(@, << "E", node, s, e >>)]
Exit(st, s, e) ==
    LET n == Len(st.open) IN
    [st EXCEPT !.ev = Append(@, << "X", st.ev[st.open[n]][2], s, e >>), !.open = SubSeq(@, 1, n - 1)]
BInline(st, l) == [st EXCEPT !.ev = Append(@, << "I", << >>, l[1], l[2] >>)]
BInlines(st, ls) == FoldLeft(LAMBDA acc, l : IF l[1] < l[2] THEN BInline(acc, l) ELSE acc, st, ls)

(* Close the innermost list; a blank line at its end does not count.        *)
CloseList(st, pos) ==
    LET l == st.ol[Len(st.ol)] IN
    Exit([st EXCEPT !.ol = SubSeq(@, 1, Len(@) - 1), !.ev[l.at][2][2] = l.start, !.pb = FALSE], pos, pos)

(* Whether the current description item has nothing but its term yet.       *)
AfterTerm(st) ==
    LET n == Len(st.open) IN
    /\ n > 0
    /\ LET j == st.open[n] IN
       /\ st.ev[j][2] = << "li", "desc", FALSE >>
       /\ \A q \in (j + 1)..Len(st.ev) :
             LET e == st.ev[q] IN
             \/ e[1] = "E" /\ e[2] = << "para" >> /\ q = j + 1
             \/ e[1] = "I" \/ (e[1] = "X" /\ e[2] = << "para" >>)
             \/ e[1] = "A" /\ e[2] = << "bl" >>

(* --- leaves --- *)
LeafLines(src, k, lines) ==
    IF k.k = "fence"
    THEN LET ls == [i \in 1..Len(lines) |->
                 LET w == SkipWsNotNl(src, lines[i][1], lines[i][2]) - lines[i][1] IN
                 << lines[i][1] + Min2(k.ind, w), lines[i][2] >>] \o << >> IN
         IF StartsB(k.spec, 0, Len(k.spec), 61) /\ ls # << >>
         THEN [ls EXCEPT ![Len(ls)] = TrimEndSp(src, @)] ELSE ls
    ELSE LET l1 == [i \in 1..Len(lines) |-> TrimStartSp(src, lines[i])] \o << >>
             l2 == IF l1 # << >> /\ l1[1][1] >= l1[1][2] THEN Tail(l1) ELSE l1
             l3 == IF k.k = "def" THEN [i \in 1..Len(l2) |-> TrimEndSp(src, l2[i])] \o << >> ELSE l2 IN
         IF l3 = << >> THEN l3 ELSE [l3 EXCEPT ![Len(l3)] = TrimEndSp(src, @)]

(* Close the sections that a heading of this level ends and open its own.   *)
(* The closing events go before attribute lines that belong to the heading. *)
OpenSection(st, level, a) ==
    LET keep == SelectLastInSeq(st.sec, LAMBDA l : l < level)
        n == Len(st.sec) - keep
        end == IF st.as = 0 THEN a ELSE st.ev[st.as][3]
        m == Len(st.open)
        exits == [i \in 1..n |-> << "X", st.ev[st.open[m + 1 - i]][2], end, end >>] \o << >>
        at == IF st.as = 0 THEN Len(st.ev) + 1 ELSE st.as IN
    Enter([st EXCEPT !.ev = SubSeq(@, 1, at - 1) \o exits \o SubSeq(@, at, Len(@)),
                     !.open = SubSeq(@, 1, m - n),
                     !.sec = Append(SubSeq(@, 1, keep), level)],
          << "section", a >>, a, a)

Leaf(src, st, k, node, span, spanEnd, lines) ==
    LET st1 == IF k.k = "head" /\ node[3] THEN OpenSection(st, k.level, span[1]) ELSE st IN
    Exit(BInlines(Enter(st1, node, span[1], span[2]), LeafLines(src, k, lines)), spanEnd[1], spanEnd[2])

(* --- tables --- *)
SepCell(b) ==
    LET l == Len(b) IN
    /\ l > 0
    /\ IF l = 1 THEN b[1] = 45
       ELSE /\ b[1] \in {45, 58} /\ b[l] \in {45, 58}
            /\ \A i \in 2..(l - 1) : b[i] = 45
            /\ l > 2 \/ b # << 58, 58 >>
AlignOf(b) == LET l == b[1] = 58 r == b[Len(b)] = 58 IN
    IF l THEN (IF r THEN "c" ELSE "l") ELSE IF r THEN "r" ELSE "n"

(* Cells of a row: spans before each pipe outside verbatim.                 *)
(* << cells, in verbatim at the end >>; a cell is << start, pipe >>.        *)
RECURSIVE RowCells(_, _, _, _, _, _)
RowCells(src, lx, pos, start, vb, out) ==
    LET t == LexNext(src, lx) IN
    IF t[1] = "" THEN << out, vb # 0 >>
    ELSE LET q == pos + t[2] IN
    IF vb # 0
    THEN IF t[1] = "`" /\ t[2] = vb THEN RowCells(src, [t[3] EXCEPT !.vb = FALSE], q, start, 0, out)
         ELSE RowCells(src, t[3], q, start, vb, out)
    ELSE IF t[1] = "|" THEN RowCells(src, t[3], q, q, 0, Append(out, << start, pos >>))
    ELSE IF t[1] = "`" THEN RowCells(src, [t[3] EXCEPT !.vb = TRUE], q, start, t[2], out)
    ELSE RowCells(src, t[3], q, start, 0, out)

(* A row is << span, cells, aligns, head >>; a separator row gives the      *)
(* alignments of the row above and of the rows below.                      *)
RECURSIVE TableRows(_, _, _, _, _)
TableRows(src, lines, i, aligns, rows) ==
    IF i > Len(lines) THEN rows
    ELSE
    LET r == TrimSp(src, lines[i]) IN
    IF r[1] >= r[2] THEN rows
    ELSE
    LET rc == RowCells(src, NewLexer(r[1] + 1, r[2]), r[1] + 1, r[1] + 1, 0, << >>)
        cells == rc[1]
        text(c) == LET x == TrimSp(src, c) IN Sub(src, x[1], x[2])
        sep == ~rc[2] /\ \A j \in 1..Len(cells) : SepCell(text(cells[j]))
        Pad(al) == [j \in 1..Len(cells) |-> IF j <= Len(al) THEN al[j] ELSE "n"] \o << >> IN
    IF sep
    THEN LET al == [j \in 1..Len(cells) |-> AlignOf(text(cells[j]))] \o << >>
             n == Len(rows) IN
         TableRows(src, lines, i + 1, al,
            IF n = 0 THEN rows
            ELSE [rows EXCEPT ![n] = << @[1], @[2],
                    [j \in 1..Len(@[2]) |-> IF j <= Len(al) THEN al[j] ELSE "n"] \o << >>, TRUE >>])
    ELSE TableRows(src, lines, i + 1, aligns, Append(rows, << r, cells, Pad(aligns), FALSE >>))

Table_(src, st, span, spanEnd, lines) ==
    LET n == Len(lines)
        ci == SelectInSeq(lines, LAMBDA l : LET p == SkipWs(src, l[1], l[2]) IN StartsB(src, p, l[2], 94))
        rowLines == IF ci = 0 THEN lines ELSE SubSeq(lines, 1, ci - 1)
        st1 == Enter(st, << "table" >>, span[1], span[2])
        cap == LET ls == [i \in 1..n |-> IF i < ci THEN lines[i]
                             ELSE << SkipWs(src, lines[i][1], lines[i][2]) + (IF i = ci THEN 2 ELSE 0), lines[i][2] >>]
                   ls2 == [ls EXCEPT ![n] = TrimEndSp(src, @)] IN
               FoldLeft(LAMBDA acc, l : BInline(acc, l), Enter(st1, << "caption" >>, span[1], span[2]),
                        SubSeq(ls2, ci, n))
        st2 == IF ci = 0 THEN st1 ELSE Exit(cap, spanEnd[1], spanEnd[2])
        Cell(acc, row, j) ==
            LET c == row[2][j] x == TrimSp(src, c) IN
            Exit(BInline(Enter(acc, << "cell", row[3][j] >>, c[1], c[1]), x), c[2], c[2] + 1)
        Row(acc, row) ==
            Exit(FoldLeftDomain(LAMBDA a2, j : Cell(a2, row, j),
                                Enter(acc, << "row", row[4] >>, row[1][1], row[1][1] + 1), row[2]),
                 row[1][2], row[1][2]) IN
    Exit(FoldLeft(Row, st2, TableRows(src, rowLines, 1, << >>, << >>)), spanEnd[1], spanEnd[2])

(* --- containers --- *)
(* Remove the prefix or indentation of a container from a further line.     *)
StripLine(src, k, l, outer) ==
    LET p == SkipWs(src, l[1], l[2])
        t == TrimEnd(src, p, l[2])
        ws == p - l[1]
        skip == CASE k.k = "quote" ->
                       IF t = p + 1 /\ At(src, p) = 62
                       THEN ws + 1 + (IF p + 1 < l[2] /\ At(src, p + 1) \in {9, 32} THEN 1 ELSE 0)
                       ELSE IF p < t /\ At(src, p) = 62 /\ p + 1 < t /\ IsWs(At(src, p + 1)) THEN ws + 2
                       ELSE 0
                  [] k.k = "fence" -> Min2(ws, k.ind)
                  [] OTHER -> Min2(ws, outer)
        len == Find(src, l[1], l[2], LAMBDA c : c = 10) - l[1] IN
    << l[1] + Min2(skip, len), l[2] >>

(* The first paragraph of a description item becomes its term, moved before *)
(* the details together with the blank lines after it.                     *)
(* d is the index of the Enter event of the details, et of the empty term. *)
MoveTerm(st, d, et, oi) ==
    LET n == Len(st.ev)
        t == d + 1 IN
    IF t > n \/ st.ev[t][1] # "E" \/ st.ev[t][2] # << "para" >> THEN st
    ELSE
    LET x == SelectInSubSeq(st.ev, t + 1, n, LAMBDA e : e[1] = "X" /\ e[2] = << "para" >>)
        f == IF x = n THEN n + 1
             ELSE LET i == SelectInSubSeq(st.ev, x + 1, n, LAMBDA e : ~(e[1] = "A" /\ e[2] = << "bl" >>)) IN
                  IF i = 0 THEN n + 1 ELSE i
        pos == IF f <= n THEN st.ev[f][3] ELSE st.ev[n][4]
        term == << "E", << "dt" >>, st.ev[et][3], st.ev[et][4] >>
        ev1 == [st.ev EXCEPT ![et][1] = "-", ![et + 1][1] = "-", ![t] = term, ![x][2] = << "dt" >>] IN
    [st EXCEPT !.ev = SubSeq(ev1, 1, d - 1) \o SubSeq(ev1, t, f - 1)
                      \o << << "E", st.ev[d][2], pos, pos >> >> \o SubSeq(ev1, f, n),
               !.open[oi] = f - 1]

RECURSIVE Blocks(_, _, _, _, _)
RECURSIVE OneBlock(_, _, _, _)

Container(src, st, k, node, span0, spanEnd, outer, lines0) ==
    LET lines == [i \in 1..Len(lines0) |->
                    IF i = 1 /\ k.k # "fence" THEN lines0[i] ELSE StripLine(src, k, lines0[i], outer)] \o << >>
        li == k.k = "li"
        newList == li /\ (st.ol = << >> \/ st.ol[Len(st.ol)].depth < Len(st.open))
        st1 == IF ~newList THEN st
               ELSE LET e == Enter(st, << "list", k.ty, TRUE >>, span0[1], span0[1]) IN
                    [e EXCEPT !.ol = Append(@, [start |-> k.ty, prev |-> k.ty,
                                                amb |-> Ambiguous(k.ty) # << >>, depth |-> Len(e.open),
                                                at |-> Len(e.ev)])]
        dd == li /\ k.ty[1] = "d"
        st2 == IF ~dd THEN st1
               ELSE LET e == Enter(st1, << "dt" >>, span0[1], span0[2])
                        x == TrimEnd(src, span0[1], span0[2]) IN Exit(e, x, x)
        span == IF dd THEN << lines[1][1], lines[1][1] >> ELSE span0
        st3 == Enter(st2, node, span[1], span[2])
        st4 == Blocks(src, st3, lines, 1, FALSE)
        st5 == IF dd THEN MoveTerm(st4, Len(st2.ev) + 1, Len(st1.ev) + 1, Len(st2.open) + 1) ELSE st4
        st6 == IF st5.ol # << >> /\ st5.ol[Len(st5.ol)].depth = Len(st5.open)
               THEN CloseList(st5, spanEnd[1])
               ELSE st5 IN
    Exit(st6, spanEnd[1], spanEnd[2])

Task(src, ty, a) == IF ty[1] = "t" THEN << "li", "task", At(src, a + 3) # 32 >>
                    ELSE IF ty[1] = "d" THEN << "li", "desc", FALSE >> ELSE << "li", "item", FALSE >>

(* Inner lines of a heading after the first lose their own marker.          *)
HeadLine(src, l) ==
    LET p == SkipWs(src, l[1], l[2])
        q == SkipByte(src, p, l[2], 35)
        r == SkipWs(src, q, l[2]) IN
    IF r > q THEN << r, l[2] >> ELSE l

(* Parse the block starting at the first of the lines: << state, lines used >>. *)
OneBlock(src, st0, lines0, top) ==
    LET k0 == Identify(src, lines0[1][1], lines0[1][2])
        m == Meter(src, lines0, 2, k0)
        k == m[2]
        trailing == IF k.k = "table" /\ ~k.cap /\ k.bl
                    THEN m[1] - SelectLastInSubSeq(lines0, 1, m[1], LAMBDA l : ~IsBlank(src, l))
                    ELSE 0
        n == m[1] - trailing
        last == lines0[n]
        spanEnd == IF k.k = "fence" /\ k.closed THEN last ELSE << last[2], last[2] >>
        outer == k0.b - lines0[1][1]
        l1 == << k0.b + (IF k.k = "quote" /\ k0.b < lines0[1][2] /\ At(src, k0.b) \in {9, 32} THEN 1 ELSE 0),
                 lines0[1][2] >>
        rest == SubSeq(lines0, 2, n)
        rest2 == IF k.k = "head" THEN [i \in 1..Len(rest) |-> HeadLine(src, rest[i])] \o << >> ELSE rest
        lines == IF k.k = "fence" THEN SubSeq(rest2, 1, Len(rest2) - (IF k.closed THEN 1 ELSE 0))
                 ELSE << l1 >> \o rest2
        span == << k0.a, k0.b >>
        \* a list ends where anything but a continuing item follows
        nl == Len(st0.ol)
        atList == nl > 0 /\ st0.ol[nl].depth = Len(st0.open)
        lc0 == IF atList /\ k.k = "li" THEN ListContinues(st0.ol[nl].prev, k.ty) ELSE << >>
        \* the items before can only change type together
        turns == lc0 # << >> /\ lc0[1] # st0.ol[nl].prev
        lc == IF turns /\ ~st0.ol[nl].amb THEN << >> ELSE lc0
        st1 == IF ~atList THEN st0
               ELSE IF lc = << >> THEN CloseList(st0, span[1])
               ELSE [st0 EXCEPT !.ol[nl] = [@ EXCEPT !.start = IF turns THEN Ambiguous(@) ELSE @,
                                                     !.amb = @ /\ Ambiguous(lc[2]) # << >>,
                                                     !.prev = lc[2]]]
        \* a blank line between items or blocks inside them makes the list
        \* loose; one before or after a nested list, or after a term, does not
        ml == Len(st1.ol)
        loosens == st1.pb /\ ml > 0 /\ (st1.ol[ml].depth >= Len(st1.open) \/ k.k # "li")
                   /\ ~AfterTerm(st1)
        st2 == IF k.k = "blank" THEN [st1 EXCEPT !.pb = TRUE]
               ELSE IF loosens THEN [st1 EXCEPT !.pb = FALSE, !.ev[st1.ol[ml].at][2][3] = FALSE]
               ELSE [st1 EXCEPT !.pb = FALSE]
        LeafAs(node) == Leaf(src, st2, k, node, span, spanEnd, lines)
        ContAs(node) == Container(src, st2, k, node, span, spanEnd, outer, lines)
        st3 == CASE k.k = "blank" -> [st2 EXCEPT !.ev = Append(@, << "A", << "bl" >>, span[1], span[2] >>)]
                 [] k.k = "attr" -> [st2 EXCEPT !.ev = Append(@, << "A", << "attr" >>, span[1], span[2] >>)]
                 [] k.k = "tb" -> [st2 EXCEPT !.ev = Append(@, << "A", << "tb" >>, span[1], span[2] >>)]
                 [] k.k = "para" -> LeafAs(<< "para" >>)
                 [] k.k = "head" -> LeafAs(<< "head", Min2(k.level, 65535), top, span[1] >>)
                 [] k.k = "def" -> LeafAs(<< "linkdef", k.label >>)
                 [] k.k = "fence" /\ k.ch # 58 -> LeafAs(<< "code", k.spec >>)
                 [] k.k = "fence" -> ContAs(<< "div", k.spec >>)
                 [] k.k = "fndef" -> ContAs(<< "fn", k.label >>)
                 [] k.k = "quote" -> ContAs(<< "quote" >>)
                 [] k.k = "li" -> ContAs(Task(src, k.ty, span[1]))
                 [] OTHER -> Table_(src, st2, span, spanEnd, lines) IN
    << [st3 EXCEPT !.as = IF k.k # "attr" THEN 0 ELSE IF @ # 0 THEN @ ELSE Len(st3.ev)], n >>

Blocks(src, st, lines, i, top) ==
    IF i > Len(lines) THEN st
    ELSE LET r == OneBlock(src, st, SubSeq(lines, i, Len(lines)), top) IN
         Blocks(src, r[1], lines, i + r[2], top)

RECURSIVE CloseLists(_, _)
CloseLists(st, pos) == IF st.ol = << >> THEN st ELSE CloseLists(CloseList(st, pos), pos)
RECURSIVE CloseAll(_, _)
CloseAll(st, pos) == IF st.open = << >> THEN st ELSE CloseAll(Exit(st, pos, pos), pos)

(* Block events of a document.                                              *)
BlockEvents(src) ==
    LET st == Blocks(src, Enter(B0, << "doc" >>, 0, 0), Lines(src), 1, TRUE) IN
    CloseAll(CloseLists(st, Len(src)), Len(src)).ev
=============================================================================
