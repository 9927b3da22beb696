----------------------------- MODULE RenderProps -----------------------------
(***************************************************************************)
(* Properties of rendering, stated on recorded renderings of an event       *)
(* stream: lays is a sequence of [lay, chunks, alt], chunks the bytes       *)
(* written for each event, alt whether rendering the same events from       *)
(* owned and split texts gave the same bytes.  lays[1] is the default       *)
(* layout and lays[2] the minified one.                                     *)
(***************************************************************************)
EXTENDS Html, Markup

Ok == << >>
FirstOf(checks) == LET i == SelectInSeq(checks, LAMBDA c : c # Ok) IN IF i = 0 THEN Ok ELSE checks[i]
DifferAt(what, a, b) ==
    IF a = b THEN Ok
    ELSE LET n == Min2(Len(a), Len(b))
             i == SelectInSeq([j \in 1..n |-> a[j] # b[j]] \o << >>, LAMBDA t : t)
             k == IF i = 0 THEN n + 1 ELSE i IN
         << what, k, IF k <= Len(a) THEN << "expected", a[k] >> ELSE << "expected nothing" >>,
                     IF k <= Len(b) THEN << "observed", b[k] >> ELSE << "observed nothing" >> >>

Without(b, drop) == SelectSeq(b, LAMBDA c : c \notin drop)

(* === C17: balanced and escaped ============================================ *)
HasRawHtml(evs) == \E i \in 1..Len(evs) : evs[i][1] = "S" /\ evs[i][2][1] \in {"rawb", "rawi"}
                                         /\ evs[i][2][2] = B("html")
C17(evs, lays) ==
    IF HasRawHtml(evs) THEN Ok
    ELSE FirstOf([n \in 1..Len(lays) |->
            LET text == Cat(lays[n].chunks) x == HtmlError(text) IN
            IF x = Ok THEN Ok ELSE << "layout", n, x, text >>])

(* === C18: what is written for each event ================================== *)
(* Whitespace between blocks aside; all of it is absent when minified.      *)
Blank(lay) == {10} \cup { lay.ind[i] : i \in 1..Len(lay.ind) }
C18(evs, lays) ==
    LET min == RenderChunks(lays[2].lay, evs)
        Others(n) ==
            LET drop == Blank(lays[n].lay) IN
            DifferAt("event", [i \in 1..Len(min) |-> Without(min[i], drop)] \o << >>,
                     [i \in 1..Len(lays[n].chunks) |-> Without(lays[n].chunks[i], drop)] \o << >>)
        alt == { n \in 1..Len(lays) : ~lays[n].alt } IN
    FirstOf(<< DifferAt("event (minified)", min, lays[2].chunks),
               IF alt = {} THEN Ok ELSE << "depends on allocation or splitting", alt >> >>
            \o [n \in 1..Len(lays) |-> Others(n)])

(* === C19: footnotes ========================================================= *)
(* Footnote definitions as label and content, the events outside of them,   *)
(* and the references made by events, in order.                             *)
SplitNotes(evs) ==
    FoldLeft(LAMBDA acc, e :
        LET n == Len(acc.open) IN
        IF e[1] = "S" /\ e[2][1] = "fn" THEN [acc EXCEPT !.open = Append(@, << e[2][2], << >> >>)]
        ELSE IF n > 0 /\ e[1] = "E" /\ e[2][1] = "fn"
        THEN [acc EXCEPT !.open = SubSeq(@, 1, n - 1), !.notes = Append(@, acc.open[n])]
        ELSE IF n > 0 THEN [acc EXCEPT !.open[n][2] = Append(@, e)]
        ELSE [acc EXCEPT !.body = Append(@, e)],
        [open |-> << >>, notes |-> << >>, body |-> << >>], evs)
Mentions(es) == LET s == SelectSeq(es, LAMBDA e : e[1] = "fnref") IN [i \in 1..Len(s) |-> s[i][2][1]] \o << >>
AddNew(order, labels) ==
    FoldLeft(LAMBDA acc, l : IF SelectInSeq(acc, LAMBDA m : m = l) > 0 THEN acc ELSE Append(acc, l), order, labels)
(* Labels in the order of their numbers: those mentioned in the body, then  *)
(* those mentioned by the footnotes themselves, in the order rendered.      *)
RECURSIVE NoteOrder(_, _, _)
NoteOrder(notes, order, k) ==
    IF k > Len(order) THEN order
    ELSE LET f == SelectLastInSeq(notes, LAMBDA x : x[1] = order[k]) IN
         NoteOrder(notes, IF f = 0 THEN order ELSE AddNew(order, Mentions(notes[f][2])), k + 1)
Order(evs) == LET s == SplitNotes(evs) IN NoteOrder(s.notes, AddNew(<< >>, Mentions(s.body)), 1)

(* Every number written between the two texts, in order of appearance.      *)
RECURSIVE NumbersIn(_, _, _, _)
NumbersIn(b, p, pre, acc) ==
    IF p >= Len(b) THEN acc
    ELSE LET q == Find(b, p, Len(b), LAMBDA c : c = pre[1]) IN
         IF q >= Len(b) THEN acc
         ELSE IF ~HasPrefix(b, q, Len(b), pre) THEN NumbersIn(b, q + 1, pre, acc)
         ELSE LET s == q + Len(pre)
                  e == Find(b, s, Len(b), LAMBDA c : ~DigitT[c + 1]) IN
              NumbersIn(b, e, pre, IF e = s THEN acc ELSE Append(acc, Sub(b, s, e)))
DocEnd(evs) == SelectLastInSeq(evs, LAMBDA e : e[1] = "E" /\ e[2] = << "doc" >>)
NoteItem == L["<li id=\"fn"]
BackLink == L["<a href=\"#fnref"]
Notes_ == L["<section role=\"doc-endnotes\">"]
Count(n) == [i \in 1..n |-> Dec(i)] \o << >>
(* Events within footnote definitions that write something.                *)
InNotes(evs, chunks) ==
    FoldLeftDomain(LAMBDA acc, n :
        IF evs[n][1] = "S" /\ evs[n][2][1] = "fn" THEN << acc[1] \o chunks[n], acc[2] + 1 >>
        ELSE IF evs[n][1] = "E" /\ evs[n][2][1] = "fn" THEN << acc[1] \o chunks[n], acc[2] - 1 >>
        ELSE IF acc[2] > 0 THEN << acc[1] \o chunks[n], acc[2] >> ELSE acc, << << >>, 0 >>, evs)[1]
(* In an image description a footnote reference counts but is not shown.    *)
C19(evs, lays) ==
    LET order == Order(evs)
        k == DocEnd(evs)
        clean == ~HasRawHtml(evs)
        One(n) ==
            LET chunks == lays[n].chunks
                epi == chunks[k]
                spec == RenderChunks(lays[n].lay, evs)
                drop == Blank(lays[n].lay)
                refs == SelectSeq([i \in 1..Len(evs) |-> i] \o << >>, LAMBDA i : evs[i][1] = "fnref" /\ chunks[i] # << >>)
                badref == { i \in 1..Len(refs) :
                    LET want == Dec(SelectInSeq(order, LAMBDA l : l = evs[refs[i]][2][1])) IN
                    NumbersIn(chunks[refs[i]], 0, L["\" href=\"#fn"], << >>) # << want >> } IN
            FirstOf(<<
                IF badref = {} THEN Ok ELSE << "reference number", evs[refs[CHOOSE i \in badref : TRUE]] >>,
                IF ~clean THEN Ok
                ELSE DifferAt("endnote", Count(Len(order)), NumbersIn(epi, 0, NoteItem, << >>)),
                IF ~clean THEN Ok
                ELSE DifferAt("back link", Count(Len(order)), NumbersIn(epi, 0, BackLink, << >>)),
                DifferAt("references", [i \in 1..Len(evs) |-> IF evs[i][1] = "fnref" THEN spec[i] ELSE << >>] \o << >>,
                    [i \in 1..Len(evs) |-> IF evs[i][1] = "fnref" THEN chunks[i] ELSE << >>] \o << >>),
                DifferAt("endnotes", Without(spec[k], drop), Without(epi, drop)) >>) IN
    IF k = 0 THEN Ok
    ELSE IF \A n \in 1..Len(evs) : evs[n][1] # "fnref"
    THEN \* no reference, no endnotes, and nothing of the definitions
         FirstOf([n \in 1..Len(lays) |->
            IF Len(lays[n].chunks) # Len(evs) THEN << "no output" >>
            ELSE IF NumbersIn(lays[n].chunks[k], 0, NoteItem, << >>) # << >> /\ clean THEN << "endnote without reference" >>
            ELSE DifferAt("unreferenced", << >>, InNotes(evs, lays[n].chunks))])
    ELSE FirstOf([n \in 1..Len(lays) |-> IF Len(lays[n].chunks) # Len(evs) THEN << "no output" >> ELSE One(n)])

(* === C20: layouts differ only in whitespace between blocks ================ *)
C20(evs, lays) ==
    LET min == lays[2].chunks
        Strip(n) ==
            LET drop == Blank(lays[n].lay) IN
            DifferAt(<< "content of layout", n >>, [i \in 1..Len(min) |-> Without(min[i], drop)] \o << >>,
                     [i \in 1..Len(lays[n].chunks) |-> Without(lays[n].chunks[i], drop)] \o << >>)
        \* exact placement, where what is placed is as specified
        Place(n) ==
            LET spec == RenderChunks(lays[n].lay, evs)
                drop == Blank(lays[n].lay)
                same == [i \in 1..Len(spec) |-> Without(spec[i], drop)] \o << >>
                        = [i \in 1..Len(lays[n].chunks) |-> Without(lays[n].chunks[i], drop)] \o << >> IN
            IF ~same THEN Ok ELSE DifferAt(<< "whitespace of layout", n >>, spec, lays[n].chunks)
    IN FirstOf([n \in 1..Len(lays) |-> Strip(n)] \o [n \in 1..Len(lays) |-> Place(n)])
=============================================================================
