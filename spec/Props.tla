-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties, stated on the stream of public events evs of a source   *)
(* text src; some also relate it to x, the stream Document(src).out of the *)
(* specification (d is the whole Document record).  Each is an operator    *)
(* that gives << >> if the property holds and the disagreement otherwise.   *)
(***************************************************************************)
EXTENDS Djot, Laws

Ok == << >>
FirstOf(checks) ==    \* the first failing one
    LET i == SelectInSeq(checks, LAMBDA c : c # Ok) IN IF i = 0 THEN Ok ELSE checks[i]

(* Disagreement of two sequences.                                           *)
Differ(what, a, b) ==
    IF a = b THEN Ok
    ELSE LET n == Min2(Len(a), Len(b))
             i == SelectInSeq([j \in 1..n |-> a[j] # b[j]] \o << >>, LAMBDA t : t)
             k == IF i = 0 THEN n + 1 ELSE i IN
         << what, k, IF k <= Len(a) THEN << "expected", a[k] >> ELSE << "expected nothing" >>,
                     IF k <= Len(b) THEN << "observed", b[k] >> ELSE << "observed nothing" >> >>

LineOf(src, p) == Len(SelectSeq(Sub(src, 0, p), LAMBDA c : c = 10))
LeafTags == {"para", "head", "dt", "cell", "caption", "code", "rawb", "linkdef"}
InlineTags == Inline_
Kind(e) == IF e[2] = << >> THEN << >> ELSE IF e[1] \in {"S", "E"} THEN e[2][1] ELSE << >>

(* Events grouped by block: each block-level event, a leaf together with    *)
(* what is inside it << start event, inner events >>.                        *)
IsLeafStart(e) == e[1] = "S" /\ e[2][1] \in LeafTags
IsLeafEnd(e) == e[1] = "E" /\ e[2][1] \in LeafTags
ByBlock(evs) ==
    FoldLeft(LAMBDA acc, e :
        IF acc[2] # << >>
        THEN IF IsLeafEnd(e) THEN << Append(acc[1], acc[2]), << >> >>
             ELSE << acc[1], << acc[2][1], Append(acc[2][2], e) >> >>
        ELSE IF IsLeafStart(e) THEN << acc[1], << e, << >> >> >>
        ELSE << Append(acc[1], << e, << >> >>), << >> >>,
        << << >>, << >> >>, evs)[1]
Leaves(evs) == SelectSeq(ByBlock(evs), LAMBDA b : IsLeafStart(b[1]))

(* === C01 =================================================================== *)
(* Terms come with their details.                                           *)
C01(evs) == LET x == NestingError(evs) IN IF x = Ok THEN Ok ELSE << "nesting", x >>

(* === C03 =================================================================== *)
InCaption(evs) ==   \* per event: inside or delimiting a caption
    FoldLeft(LAMBDA acc, e :
        IF e[1] = "S" /\ e[2] = << "caption" >> THEN << Append(acc[1], TRUE), TRUE >>
        ELSE IF e[1] = "E" /\ e[2] = << "caption" >> THEN << Append(acc[1], TRUE), FALSE >>
        ELSE << Append(acc[1], acc[2]), acc[2] >>, << << >>, FALSE >>, evs)[1]
Boundary(src, p) == p = Len(src) \/ p = 0 \/ At(src, p) \notin 128..191
RangeErrors(src, evs) ==
    LET cap == InCaption(evs)
        out == SelectSeq([i \in 1..Len(evs) |-> << i, cap[i] >>] \o << >>, LAMBDA t : ~t[2])
        bad == SelectInSeq(evs, LAMBDA e : ~(0 <= e[4] /\ e[4] <= e[5] /\ e[5] <= Len(src)))
        chr == SelectInSeq(evs, LAMBDA e : ~(Boundary(src, e[4]) /\ Boundary(src, e[5])))
        str == SelectInSeq(evs, LAMBDA e : e[1] = "str" /\ e[2][1] # Sub(src, e[4], e[5]))
        ord == { k \in 2..Len(out) : evs[out[k - 1][1]][5] > evs[out[k][1]][4] } IN
    IF bad > 0 THEN << "range outside the input", evs[bad] >>
    ELSE IF chr > 0 THEN << "range not on character boundaries", evs[chr] >>
    ELSE IF str > 0 THEN << "text is not its slice", evs[str] >>
    ELSE IF ord # {} THEN << "ranges overlap or are out of order", evs[out[CHOOSE k \in ord : TRUE][1]] >>
    ELSE Ok
Shape(evs) == [i \in 1..Len(evs) |-> << evs[i][1], Kind(evs[i]) >>] \o << >>
C03(src, evs, x) ==
    LET m == RangeErrors(src, evs) IN
    IF m # Ok THEN m
    ELSE IF Shape(evs) # Shape(x) THEN Ok
    ELSE Differ("range", [i \in 1..Len(x) |-> << x[i][4], x[i][5], Shape(x)[i] >>] \o << >>,
                         [i \in 1..Len(evs) |-> << evs[i][4], evs[i][5], Shape(x)[i] >>] \o << >>)

(* === C05 =================================================================== *)
BlockDetail(c) ==
    CASE c[1] = "head" -> << "head", c[2] >>
      [] c[1] \in {"li", "task"} -> << "item" >>
      [] c[1] = "row" -> << "row" >>
      [] OTHER -> c
(* First and last source line of some events.                               *)
Extent(src, es) ==
    LET f == SelectSeq(es, LAMBDA e : e[4] < e[5]) IN
    IF f = << >> THEN << >>
    ELSE << LineOf(src, f[1][4]), LineOf(src, f[Len(f)][5] - 1) >>
BlockView(src, evs) ==
    LET bs == SelectSeq(ByBlock(evs), LAMBDA b :
                 ~(b[1][1] \in {"S", "E"} /\ b[1][2][1] \in {"list", "dl", "section", "cell"})) IN
    [i \in 1..Len(bs) |->
        LET e == bs[i][1] IN
        CASE e[1] = "S" -> << "S", BlockDetail(e[2]), LineOf(src, e[4]), Extent(src, bs[i][2]), e[3] # << >> >>
          [] e[1] = "E" -> << "E", BlockDetail(e[2]) >>
          [] OTHER -> << e[1], LineOf(src, e[4]) >>] \o << >>
C05(src, evs, x) == FirstOf(<< Differ("block", BlockView(src, x), BlockView(src, evs)), BlockLaw(src, evs), CoverLaw(src, evs) >>)

(* === C06 =================================================================== *)
ListTags == {"list", "dl", "li", "task", "dd", "dt"}
ListView(src, evs) ==
    LET s == SelectSeq(evs, LAMBDA e : e[1] \in {"S", "E"} /\ e[2][1] \in ListTags) IN
    [i \in 1..Len(s) |-> << s[i][1], s[i][2], IF s[i][1] = "S" THEN LineOf(src, s[i][4]) ELSE 0 >>] \o << >>
(* Terms and details alternate in description lists.                        *)
TermErrors(evs) ==
    LET bad == { i \in 1..Len(evs) : evs[i][1] = "S" /\ evs[i][2] = << "dd" >>
                   /\ LET j == SelectLastInSubSeq(evs, 1, i - 1, LAMBDA e : e[1] # "bl") IN
                      j = 0 \/ evs[j][1] # "E" \/ evs[j][2] # << "dt" >> } IN
    IF bad = {} THEN Ok ELSE << "details without a term", evs[CHOOSE i \in bad : TRUE] >>
C06(src, evs, x) == FirstOf(<< Differ("list", ListView(src, x), ListView(src, evs)), TermErrors(evs), ListLaw(src, evs) >>)

(* === C07 =================================================================== *)
(* Walk over the events with the stack of open containers, a section        *)
(* represented by the level of its heading.                                 *)
SectionStep(evs, st, i) ==
    LET e == evs[i]
        stack == st[1]
        n == Len(stack)
        nx == IF i < Len(evs) THEN evs[i + 1] ELSE << "none", << "none" >> >>
        pv == IF i > 1 THEN evs[i - 1] ELSE << "none", << "none" >> >>
        top == \A k \in 1..n : stack[k][1] \in {"doc", "section"}
        Bad(w) == << stack, << w, i, e >> >> IN
    IF st[2] # << >> THEN st
    ELSE IF e[1] = "S"
    THEN IF e[2][1] = "section"
         THEN IF ~top THEN Bad("section inside another container")
              ELSE IF nx[1] # "S" \/ nx[2][1] # "head" THEN Bad("section does not begin with its heading")
              ELSE IF nx[2][4] # e[2][2] THEN Bad("ids of section and heading differ")
              ELSE IF \E k \in 1..n : stack[k][1] = "section" /\ stack[k][2] >= nx[2][2]
              THEN Bad("nested section of no greater level")
              ELSE << Append(stack, << "section", nx[2][2] >>), << >> >>
         ELSE IF e[2][1] = "head" /\ e[2][3] # top THEN Bad("heading with or without section")
         ELSE IF e[2][1] = "head" /\ top /\ (pv[1] # "S" \/ pv[2][1] # "section")
         THEN Bad("heading opens no section")
         ELSE << Append(stack, e[2]), << >> >>
    ELSE IF e[1] # "E" \/ n = 0 THEN st
    ELSE IF e[2][1] = "section" /\ stack[n][1] = "section"
    THEN \* closes only before a heading that ends it, or with the document
         LET ends == SelectInSubSeq(evs, i, Len(evs), LAMBDA y : y[1] # "E" \/ y[2][1] # "section")
             y == IF ends = 0 THEN << "none", << "none" >> >> ELSE evs[ends] IN
         IF y[1] = "E" /\ y[2] = << "doc" >> THEN << SubSeq(stack, 1, n - 1), << >> >>
         ELSE IF y[1] = "S" /\ y[2][1] = "section" /\ ends < Len(evs) /\ evs[ends + 1][1] = "S"
                 /\ evs[ends + 1][2][1] = "head" /\ evs[ends + 1][2][2] <= stack[n][2]
         THEN << SubSeq(stack, 1, n - 1), << >> >>
         ELSE Bad("section ends early")
    ELSE << SubSeq(stack, 1, n - 1), << >> >>
SectionErrors(evs) ==
    LET st == FoldLeftDomain(LAMBDA acc, i : SectionStep(evs, acc, i), << << >>, << >> >>, evs) IN
    IF st[2] = << >> THEN Ok ELSE st[2]
SectionView(evs) ==
    LET s == SelectSeq(evs, LAMBDA e : e[1] \in {"S", "E"} /\ e[2][1] \in {"section", "head"}) IN
    [i \in 1..Len(s) |-> << s[i][1], s[i][2][1], IF s[i][2][1] = "head" THEN << s[i][2][2], s[i][2][3] >> ELSE << >> >>]
        \o << >>
C07(src, evs, x) == FirstOf(<< SectionErrors(evs), Differ("section", SectionView(x), SectionView(evs)) >>)

(* === C08 =================================================================== *)
(* Id of a heading's text, from its public events.                          *)
PublicIdBase(es) ==
    LET r == FoldLeft(LAMBDA acc, e :
                 IF e[1] = "str" THEN FoldLeft(IdByte, acc, e[2][1])
                 ELSE IF e[1] = "sb" THEN << Append(acc[1], 45), acc[2] >>
                 ELSE acc, << << >>, TRUE >>, es)[1]
        n == SelectLastInSeq(r, LAMBDA c : c # 45) IN
    SubSeq(r, 1, n)
IdErrors(evs) ==
    LET bs == ByBlock(evs)
        Step(acc, i) ==
            LET b == bs[i] IN
            IF acc[2] # << >> \/ b[1][1] # "S" \/ b[1][2][1] # "head" THEN acc
            ELSE
            LET auto == UniqueId(acc[1], PublicIdBase(b[2]))
                as == IF b[1][2][3] /\ i > 1 THEN bs[i - 1][1][3] \o b[1][3] ELSE b[1][3]
                given == AGet(as, S_id)
                id == IF given = << >> THEN auto ELSE ADisplay(given[1]) IN
            << acc[1] \cup {auto}, IF b[1][2][4] = id THEN << >> ELSE << "id", b[1], "expected", id >> >> IN
    FoldLeftDomain(Step, << {}, << >> >>, bs)[2]
IdView(evs) == LET s == SelectSeq(evs, LAMBDA e : e[1] = "S" /\ e[2][1] = "head") IN
    [i \in 1..Len(s) |-> s[i][2][4]] \o << >>
C08(src, evs, x) ==
    FirstOf(<< IdErrors(evs), IF Len(IdView(x)) # Len(IdView(evs)) THEN Ok
                              ELSE Differ("heading id", IdView(x), IdView(evs)) >>)

(* === C09 =================================================================== *)
RefTy == {"ref", "unres"}
(* Heading texts an id stands for: any heading with the same text will do.  *)
SameTarget(hs, a, b) ==
    a = b \/ (\E i, j \in 1..Len(hs) : hs[i].text = hs[j].text /\ a = << 35 >> \o HeadId(hs[i])
                                      /\ b = << 35 >> \o HeadId(hs[j]))
RefView(evs) == SelectSeq(evs, LAMBDA e : e[1] \in {"S", "E"} /\ e[2][1] \in {"link", "img"} /\ e[2][3] \in RefTy)
C09(src, evs, x, d) ==
    LET a == RefView(x) b == RefView(evs)
        Same(i) == a[i][1] = b[i][1] /\ a[i][2][1] = b[i][2][1] /\ a[i][2][3] = b[i][2][3]
                   /\ a[i][3] = b[i][3] /\ SameTarget(d.hs, a[i][2][2], b[i][2][2])
        bad == { i \in 1..Min2(Len(a), Len(b)) : ~Same(i) } IN
    IF bad # {} THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
                     << "reference", << "expected", a[i] >>, << "observed", b[i] >> >>
    ELSE IF Len(a) # Len(b) THEN << "number of references", Len(a), Len(b) >>
    ELSE Ok

(* === C10 =================================================================== *)
TableTags == {"table", "row", "cell", "caption"}
Span_(es) ==
    LET f == SelectSeq(es, LAMBDA e : e[4] < e[5]) IN
    IF f = << >> THEN << >> ELSE << f[1][4], f[Len(f)][5] >>
TableView(evs) ==
    LET bs == SelectSeq(ByBlock(evs), LAMBDA b : b[1][1] \in {"S", "E"} /\ b[1][2][1] \in TableTags) IN
    [i \in 1..Len(bs) |-> << bs[i][1][1], bs[i][1][2],
        IF IsLeafStart(bs[i][1]) THEN Span_(bs[i][2]) ELSE << >> >>] \o << >>
C10(src, evs, x) == FirstOf(<< Differ("table", TableView(x), TableView(evs)), TableLaw(src, evs) >>)

(* === C11 =================================================================== *)
LiteralTags == {"code", "rawb", "linkdef", "verb", "imath", "dmath", "rawi"}
IsLiteral(c) == c[1] \in LiteralTags \/ (c[1] \in {"link", "img"} /\ c[3] \in {"inline", "auto", "email"})
Opaque(c) == c[1] \in LiteralTags \/ IsAutolink(c)
LiteralView(evs) ==
    FoldLeft(LAMBDA acc, e :
        IF acc[2] # << >>
        THEN IF e[1] = "E" THEN << Append(acc[1], acc[2]), << >> >>
             ELSE << acc[1], << acc[2][1], acc[2][2] \o (IF e[1] = "str" THEN e[2][1] ELSE << 0, 0 >>) >> >>
        ELSE IF e[1] = "S" /\ Opaque(e[2]) THEN << acc[1], << e[2], << >> >> >>
        ELSE IF e[1] = "S" /\ IsLiteral(e[2]) THEN << Append(acc[1], << e[2] >>), << >> >>
        ELSE acc, << << >>, << >> >>, evs)[1]
C11(src, evs, x) == FirstOf(<< Differ("literal", LiteralView(x), LiteralView(evs)), LiteralLaw(src, evs) >>)

(* === C12, C13 ============================================================== *)
(* Only leaves that both agree on are compared: block structure is C05.     *)
LeafKey(l) == << l[1][2][1], l[1][4], l[1][5] >>
LeafShape(evs) == LET l == Leaves(evs) IN [i \in 1..Len(l) |-> << l[i][1][2][1], l[i][1][4], l[i][1][5] >>] \o << >>
InlineName(e) ==
    CASE e[1] \in {"fnref", "sym"} -> << e[1], e[2] >>
      [] e[2][1] \in {"link", "img"} ->
            << e[1], e[2][1], IF e[2][3] \in RefTy THEN "ref" ELSE e[2][3] >>
      [] OTHER -> << e[1], e[2][1] >>
MarkupOf(es) == SelectSeq(es, LAMBDA e : e[1] \in {"S", "E", "fnref", "sym"})
MarkupView(es) == LET s == MarkupOf(es) IN [i \in 1..Len(s) |-> InlineName(s[i])] \o << >>
AtomsOf(es) == SelectSeq(es, LAMBDA e : e[1] \notin {"S", "E", "str", "att"})
AtomView(es) == LET s == AtomsOf(es) IN [i \in 1..Len(s) |-> s[i][1]] \o << >>
(* Text between markup, adjacent texts joined.                              *)
TextView(es) ==
    FoldLeft(LAMBDA acc, e :
        IF e[1] = "str"
        THEN IF acc[2] THEN << [acc[1] EXCEPT ![Len(acc[1])] = << "str", @[2] \o e[2][1] >>], TRUE >>
             ELSE << Append(acc[1], << "str", e[2][1] >>), TRUE >>
        ELSE IF e[1] = "att" THEN acc
        ELSE << Append(acc[1], << e[1], << >> >>), FALSE >>, << << >>, FALSE >>, es)[1]
PerLeaf(evs, x, Check(_, _)) ==
    LET a == Leaves(x) b == Leaves(evs)
        same == LeafShape(x) = LeafShape(evs)
        Match(i) == IF same THEN i ELSE SelectInSeq(b, LAMBDA l : LeafKey(l) = LeafKey(a[i]))
        bad == { i \in 1..Len(a) : Match(i) > 0 /\ Check(a[i][2], b[Match(i)][2]) # Ok } IN
    IF bad = {} THEN Ok
    ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN << a[i][1], Check(a[i][2], b[Match(i)][2]) >>
C12(src, evs, x) ==
    FirstOf(<< PerLeaf(evs, x, LAMBDA a, b :
                   FirstOf(<< Differ("markup", MarkupView(a), MarkupView(b)),
                              IF AtomView(a) # AtomView(b) THEN Ok ELSE Differ("text", TextView(a), TextView(b)) >>)),
               DelimiterLaw(src, evs) >>)

(* Bytes of the leaf's inline lines not covered by any of its events.       *)
Uncovered(src, lines, es) ==
    LET covered == UNION { es[i][4]..(es[i][5] - 1) : i \in 1..Len(es) } IN
    UNION { lines[i][1]..(lines[i][2] - 1) : i \in 1..Len(lines) } \ covered
(* Source between the start and the end event of each verbatim.             *)
VerbatimInside(es) ==
    UNION { LET j == SelectInSubSeq(es, i + 1, Len(es), LAMBDA e : e[1] = "E") IN
            es[i][5]..((IF j = 0 THEN es[i][5] ELSE es[j][4]) - 1)
            : i \in { k \in 1..Len(es) : es[k][1] = "S" /\ es[k][2][1] \in {"verb", "imath", "dmath", "rawi"} } }
(* What the bytes of each atom look like.                                   *)
AtomText(src, e) ==
    LET b == Sub(src, e[4], e[5]) n == Len(b) IN
    CASE e[1] = "ell" -> b = << 46, 46, 46 >>
      [] e[1] = "emd" -> b = << 45, 45, 45 >>
      [] e[1] = "end" -> b = << 45, 45 >>
      [] e[1] = "esc" -> b = << 92 >>
      [] e[1] = "nbsp" -> b = << 32 >>
      [] e[1] = "sb" -> b = << 10 >>
      [] e[1] = "hb" -> n > 0 /\ b[n] = 10 /\ \A i \in 1..(n - 1) : b[i] \in {32, 9}
      [] e[1] \in {"lsq", "rsq"} -> b \in {<< 39 >>, << 123, 39 >>, << 39, 125 >>}
      [] e[1] \in {"ldq", "rdq"} -> b \in {<< 34 >>, << 123, 34 >>, << 34, 125 >>}
      [] OTHER -> TRUE
(* A backslash makes exactly the next character literal.                    *)
EscapeFollow(src, es) ==
    { i \in 1..Len(es) : es[i][1] = "esc" /\
        LET p == es[i][5]
            j == SelectInSubSeq(es, i + 1, Len(es), LAMBDA e : e[4] < e[5]) IN
        ~(/\ p < Len(src) /\ (IsWs(At(src, p)) \/ IsPunct(At(src, p)))
          /\ j > 0 /\ es[j][4] = p /\ es[j][1] \in {"str", "nbsp", "hb"}) }
(* Padding of verbatim, and attribute groups without elements, have no event. *)
Lost(src, ve, p) == ~(IsWs(At(src, p)) /\ p \in ve) /\ ~(IsWs(At(src, p)) \/ At(src, p) \in {123, 125})
ConservationErrors(src, evs, d) ==
    LET ls == SelectSeq(Leaves(evs), LAMBDA l : l[1][2][1] \in TextParents)
        bl == SelectSeq([i \in 1..Len(d.bev) |-> i] \o << >>,
                        LAMBDA i : d.bev[i][1] = "E" /\ d.bev[i][2][1] \in TextParents)
        Bad(i) ==
            LET es == ls[i][2]
                un == Uncovered(src, LeafInlines(d.bev, bl[i]), es)
                ve == VerbatimInside(es)
                at == { k \in 1..Len(es) : ~AtomText(src, es[k]) } IN
            IF \E p \in un : Lost(src, ve, p) THEN << "lost", CHOOSE p \in un : Lost(src, ve, p) >>
            ELSE IF at # {} THEN << "atom", es[CHOOSE k \in at : TRUE] >>
            ELSE IF EscapeFollow(src, es) # {} THEN << "escape", es[CHOOSE k \in EscapeFollow(src, es) : TRUE] >>
            ELSE Ok
        bad == { i \in 1..Len(ls) : Bad(i) # Ok } IN
    IF LeafShape(evs) # LeafShape(d.out) \/ Len(ls) # Len(bl) \/ bad = {} THEN Ok
    ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN << ls[i][1], Bad(i) >>
C13(src, evs, x, d) ==
    FirstOf(<< ConservationErrors(src, evs, d),
               PerLeaf(evs, x, LAMBDA a, b :
                   IF MarkupView(a) # MarkupView(b) THEN Ok
                   ELSE FirstOf(<< Differ("atom", AtomView(a), AtomView(b)),
                                   Differ("text", TextView(a), TextView(b)) >>)),
               PlainLaw(src, evs) >>)

(* === C16 =================================================================== *)
(* Non-empty attributes, with the number of elements before them.           *)
AttrView(evs) ==
    FoldLeft(LAMBDA acc, e :
        << IF e[3] = << >> THEN acc[1] ELSE Append(acc[1], << e[1], Kind(e), e[3], acc[2] >>),
           IF e[1] \in {"S", "tb"} THEN acc[2] + 1 ELSE acc[2] >>, << << >>, 0 >>, evs)[1]
C16(src, evs, x) == FirstOf(<< Differ("attributes", AttrView(x), AttrView(evs)), WrittenLaw(src, evs) >>)
=============================================================================
