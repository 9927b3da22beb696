------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* Documents in a context (C23): a document reads the same wherever it is   *)
(* put.  Wrap(k, src) is src inside of a block quote, a list item, a div, a *)
(* footnote or the details of a description list, or before or after       *)
(* another block, or indented; the events                                  *)
(* inside must be those of src itself, at the same places.                  *)
(* Only the events are compared; nothing here says how they come about.     *)
(***************************************************************************)
EXTENDS Props

Contexts == << "quote", "item", "div", "foot", "after", "before", "indent", "detail", "tab" >>

(* --- wrapping: src ends with one newline and is not blank ------------------- *)
Plain(text) ==      \* text so, or << >>
    LET n == FindLast(text, 0, Len(text), LAMBDA c : c # 10) + 1 IN
    IF AllBlank(text, 0, n) THEN << >> ELSE Append(SubSeq(text, 1, n), 10)
LinesOf(src) ==     \* without their newlines
    FoldLeft(LAMBDA acc, c : IF c = 10 THEN Append(acc, << >>)
                             ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], << << >> >>, SubSeq(src, 1, Len(src) - 1))
Prefixed(src, first, rest, blank) ==
    LET ls == LinesOf(src) IN
    FoldLeftDomain(LAMBDA acc, i : acc \o (IF i = 1 THEN first ELSE IF ls[i] = << >> THEN blank ELSE rest)
                                       \o ls[i] \o << 10 >>, << >>, ls)
Lead == B("X\n\n")
DivFence == [i \in 1..30 |-> 58] \o << 10 >>
Wrap(k, src) ==
    CASE k = "quote" -> Lead \o Prefixed(src, B("> "), B("> "), B(">"))
      [] k = "item" -> Lead \o Prefixed(src, B("1. "), B("   "), << >>)
      [] k = "div" -> Lead \o DivFence \o src \o DivFence
      [] k = "foot" -> Lead \o Prefixed(src, B("[^Q]: "), B("      "), << >>)
      [] k = "after" -> src \o B("\nY\n")
      [] k = "before" -> Lead \o src
      [] k = "indent" -> Prefixed(src, B(" "), B(" "), << >>)
      [] k = "tab" -> Prefixed(src, << 9, 32 >>, << 9, 32 >>, << 9 >>)
      [] k = "detail" -> Lead \o B(": T\n\n") \o Prefixed(src, B("  "), B("  "), << >>)
LineShift(k) == CASE k \in {"quote", "item", "foot", "before"} -> 2 [] k = "div" -> 3 [] k = "detail" -> 4 [] OTHER -> 0

(* --- where it applies ------------------------------------------------------------ *)
FenceTags == {"code", "rawb", "div"}
IsFenceEvent(e) == e[1] \in {"S", "E"} /\ e[2][1] \in FenceTags
Unclosed(evs) == \E i \in 1..Len(evs) : evs[i][1] = "E" /\ IsFenceEvent(evs[i]) /\ evs[i][4] = evs[i][5]
LooksLikeFence(l) ==
    LET t == SkipWs(l, 0, Len(l)) IN
    t + 2 < Len(l) /\ At(l, t) \in {58, 96, 126} /\ At(l, t + 1) = At(l, t) /\ At(l, t + 2) = At(l, t)
(* A line that only looks like a fence hides the end of a div.             *)
FalseFence(src, evs) ==
    LET ls == LinesOf(src)
        like == { i \in 1..Len(ls) : LooksLikeFence(ls[i]) }
        fe == SelectSeq(evs, LAMBDA e : IsFenceEvent(e))
        lines == [i \in 1..Len(fe) |-> LineOf(src, fe[i][4]) + 1] \o << >>
        \* line of the start that belongs to each end
        pair == FoldLeftDomain(LAMBDA acc, i :
                    IF fe[i][1] = "S" THEN << Append(acc[1], lines[i]), acc[2] >>
                    ELSE << Front(acc[1]), acc[2] \cup {<< Last(acc[1]), lines[i] >>} >>, << << >>, {} >>, fe)[2] IN
    \/ \E p \in pair : (p[1] \in like) # (p[2] \in like)
    \/ \E i \in like : \A p \in pair : i \notin {p[1], p[2]}
(* A line without the prefix of the block quote it belongs to.             *)
Lazy(src, evs) ==
    LET ls == LinesOf(src) IN
    /\ \E i \in 1..Len(evs) : evs[i][1] = "S" /\ evs[i][2] = << "quote" >>
    /\ \E i \in 2..Len(ls) :
          LET t == SkipWs(ls[i], 0, Len(ls[i])) IN
          /\ t < Len(ls[i]) /\ ~(At(ls[i], t) = 62 /\ (t + 1 = Len(ls[i]) \/ IsWs(At(ls[i], t + 1))))
          /\ \E j \in 1..Len(ls[i - 1]) : ls[i - 1][j] = 62

(* Why the law says nothing of this document, or "".                       *)
Exempt(k, src, evs) ==
    LET c == src[1]
        ls == LinesOf(src)[1] IN
    CASE k \in {"item", "foot"} /\ IsWs(c) -> "begins with whitespace"
      [] k = "item" /\ Len(ls) >= 3 /\ ls[1] = 91 /\ ls[3] = 93 -> "task"
      [] k \in {"div", "after"} /\ Unclosed(evs) -> "unclosed fence"
      [] k = "div" /\ FalseFence(src, evs) -> "line that looks like a fence"
      [] k = "detail" /\ AllBlank(ls, 0, Len(ls)) -> "begins with a blank line"
      [] k \in {"item", "foot", "indent", "tab", "detail"} /\ Lazy(src, evs) -> "lazy line"
      [] OTHER -> ""

(* --- what is compared ------------------------------------------------------------- *)
(* Place of an inline event: the lines it begins and ends on, and how far   *)
(* from the ends of these.  Ranges of blocks may include their indentation. *)
Eol(src, p) == Find(src, p, Len(src), LAMBDA c : c = 10) - p
InText(e) == IF e[1] \in {"S", "E"} THEN e[2][1] \in InlineTags ELSE e[1] \notin {"bl", "tb", "att"}
Place(src, e, shift) ==
    IF e[4] >= e[5] \/ ~InText(e) THEN << >>
    ELSE << LineOf(src, e[4]) - shift, Eol(src, e[4]), LineOf(src, e[5] - 1) - shift, Eol(src, e[5] - 1) >>

(* Without the document and its sections: a heading has the attributes of   *)
(* its section, as it has no section inside of containers.                  *)
Flat(src, evs, shift) ==
    FoldLeft(LAMBDA acc, e :
        IF e[1] \in {"S", "E"} /\ e[2] = << "doc" >> THEN acc
        ELSE IF e[1] \in {"S", "E"} /\ e[2][1] = "section"
        THEN IF e[1] = "S" THEN << acc[1], e[3] >> ELSE acc
        ELSE IF e[1] \in {"S", "E"} /\ e[2][1] = "head"
        THEN << Append(acc[1], << e[1], << "head", e[2][2], e[2][4] >>, acc[2] \o e[3], Place(src, e, shift) >>), << >> >>
        ELSE << Append(acc[1], << e[1], e[2], e[3], Place(src, e, shift) >>), << >> >>,
        << << >>, << >> >>, evs)[1]
(* Adjacent texts are one.                                                  *)
Joined(es) ==
    FoldLeft(LAMBDA acc, e :
        LET n == Len(acc) IN
        IF n > 0 /\ e[1] = "str" /\ acc[n][1] = "str" /\ e[3] = << >> /\ acc[n][3] = << >>
        THEN [acc EXCEPT ![n] = << "str", << @[2][1] \o e[2][1] >>, << >>,
                                   IF @[4] = << >> THEN e[4] ELSE IF e[4] = << >> THEN @[4]
                                   ELSE << @[4][1], @[4][2], e[4][3], e[4][4] >> >>]
        ELSE Append(acc, e), << >>, es)
(* A blank line after a list belongs to the list, and may make it loose.   *)
NoBlanks(es) ==
    LET f == SelectSeq(es, LAMBDA e : e[1] # "bl") IN
    [i \in 1..Len(f) |-> IF f[i][1] \in {"S", "E"} /\ f[i][2][1] = "list"
                         THEN [f[i] EXCEPT ![2] = SubSeq(@, 1, Len(@) - 1)] ELSE f[i]] \o << >>

(* The containers around the document in a context.                        *)
Around(k) == CASE k = "quote" -> << "quote" >> [] k = "item" -> << "list", "li" >>
               [] k = "div" -> << "div" >> [] k = "foot" -> << "fn" >> [] k = "detail" -> << "dl", "dd" >> [] OTHER -> << >>
Starts2(es, tags) ==    \* begins with starts and ends with ends of these
    /\ Len(es) >= 2 * Len(tags)
    /\ \A i \in 1..Len(tags) : es[i][1] = "S" /\ es[i][2][1] = tags[i]
                               /\ es[Len(es) + 1 - i][1] = "E" /\ es[Len(es) + 1 - i][2][1] = tags[i]
IsPara(es, i, text) == /\ es[i][1] = "S" /\ es[i][2] = << "para" >> /\ es[i][3] = << >>
                       /\ es[i + 1][1] = "str" /\ es[i + 1][2] = << text >>
                       /\ es[i + 2][1] = "E" /\ es[i + 2][2] = << "para" >>
(* The events of the document itself in a context: << found, events >>.    *)
Within(k, es) ==
    IF k \in {"indent", "tab"} THEN << TRUE, es >>
    ELSE IF k = "after"
    THEN IF Len(es) >= 3 /\ IsPara(es, Len(es) - 2, << 89 >>) THEN << TRUE, SubSeq(es, 1, Len(es) - 3) >>
         ELSE << FALSE, es >>
    ELSE IF ~(Len(es) >= 4 /\ IsPara(es, 1, << 88 >>) /\ es[4][1] = "bl") THEN << FALSE, es >>
    ELSE IF k = "detail" /\ ~(Len(es) >= 9 /\ es[5][1] = "S" /\ es[5][2] = << "dl" >> /\ es[6][1] = "S"
                              /\ es[6][2] = << "dt" >> /\ es[7][2] = << << 84 >> >>
                              /\ es[8][1] = "E" /\ es[8][2] = << "dt" >> /\ es[9][1] = "bl")
    THEN << FALSE, es >>
    ELSE LET a == IF k = "detail" THEN << es[5] >> \o SubSeq(es, 10, Len(es)) ELSE SubSeq(es, 5, Len(es))
             n == Len(Around(k)) IN
         IF ~Starts2(a, Around(k)) THEN << FALSE, es >>
         ELSE << TRUE, SubSeq(a, n + 1, Len(a) - n) >>

(* src with events evs, and in context k text wsrc with events wevs.        *)
C23(k, src, evs, wsrc, wevs) ==
    IF wsrc # Wrap(k, src) THEN << "not the document in its context", k >>
    ELSE IF Exempt(k, src, evs) # "" THEN Ok
    ELSE LET a == Joined(Flat(src, evs, 0))
             b == Within(k, Joined(Flat(wsrc, wevs, LineShift(k)))) IN
         IF ~b[1] THEN << "the document is not one inside of the context", k, b[2] >>
         ELSE IF k = "after" THEN Differ(k, NoBlanks(a), NoBlanks(b[2]))
         ELSE Differ(k, a, b[2])
=============================================================================
