-------------------------------- MODULE Djot ---------------------------------
(***************************************************************************)
(* The document: definitions, heading ids, attachment of attributes,       *)
(* resolution of references, and the resulting stream of public events     *)
(*     << tag, payload, attributes, start, end >>                          *)
(* with tag "S"tart, "E"nd (payload a container), "str" "fnref" "sym"      *)
(* (payload << bytes >>), "lsq" "rsq" "ldq" "rdq" "ell" "end" "emd" "nbsp" *)
(* "sb" "hb" "esc" "bl" "tb" "att" (payload << >>).                        *)
(***************************************************************************)
EXTENDS Block, Inline

(* --- inline events of each leaf ------------------------------------------- *)
VerbatimLeaf(node) == node[1] \in {"code", "linkdef"}
LeafNode(node) == node[1] \in {"para", "head", "dt", "cell", "caption", "code", "linkdef"}

(* The inline lines of the leaf entered by block event i.                   *)
LeafInlines(bev, i) ==
    LET j == SelectInSubSeq(bev, i + 1, Len(bev), LAMBDA e : e[1] # "I") IN
    [n \in 1..(j - i - 1) |-> << bev[i + n][3], bev[i + n][4] >>] \o << >>

(* --- headings ----------------------------------------------------------------- *)
(* Reference text of a heading: its text and atoms, line breaks as spaces.  *)
HeadText(src, iev) ==
    FoldLeft(LAMBDA acc, e :
        IF e[1] = "S" THEN acc \o Sub(src, e[4], e[5])
        ELSE IF e[1] # "A" \/ e[2][1] = "esc" THEN acc
        ELSE IF e[2][1] \in {"sb", "hb"} THEN Append(acc, 32)
        ELSE acc \o Sub(src, e[4], e[5]), << >>, iev)

(* Generated id before it is made unique.                                   *)
IdByte(acc, c) ==
    IF IsWs(c) THEN IF acc[2] THEN acc ELSE << Append(acc[1], 45), TRUE >>
    ELSE IF IsPunct(c) /\ c # 45 /\ c # 95 THEN acc
    ELSE << Append(acc[1], c), FALSE >>
IdBase(src, iev) ==
    LET r == FoldLeft(LAMBDA acc, e :
                 IF e[1] = "S" THEN FoldLeft(IdByte, acc, Sub(src, e[4], e[5]))
                 ELSE IF e[1] = "A" /\ e[2][1] = "sb" THEN << Append(acc[1], 45), acc[2] >>
                 ELSE acc, << << >>, TRUE >>, iev)[1]
        n == SelectLastInSeq(r, LAMBDA c : c # 45) IN
    SubSeq(r, 1, n)

RECURSIVE NumberId(_, _, _)
NumberId(used, base, n) ==
    LET id == base \o << 45 >> \o Dec(n) IN
    IF id \in used THEN NumberId(used, base, n + 1) ELSE id
UniqueId(used, id) ==
    IF id = << >> THEN NumberId(used, << 115 >>, 1)
    ELSE IF id \in used THEN NumberId(used, id, 1)
    ELSE id

(* Attribute lines that directly precede block event i (sections ignored).   *)
RECURSIVE AttrsBefore(_, _, _)
AttrsBefore(src, bev, i) ==
    IF i = 0 THEN << >>
    ELSE LET e == bev[i] IN
    IF e[1] = "A" /\ e[2] = << "attr" >> THEN AttrsBefore(src, bev, i - 1) \o AttrElems(src, e[3], e[4])
    ELSE IF e[1] \in {"E", "X"} /\ e[2][1] = "section" THEN AttrsBefore(src, bev, i - 1)
    ELSE << >>

(* Headings in order: [pos, auto, text, ov] with ov << >> or << id >>.      *)
Headings(src, bev, iev) ==
    FoldLeftDomain(LAMBDA acc, i :
        LET e == bev[i] IN
        IF e[1] # "E" \/ e[2][1] # "head" THEN acc
        ELSE LET id == UniqueId({acc[j].auto : j \in 1..Len(acc)}, IdBase(src, iev[i]))
                 ov == AGet(AttrsBefore(src, bev, i - 1), S_id) IN
             Append(acc, [pos |-> e[3], auto |-> id, text |-> HeadText(src, iev[i]),
                          ov |-> IF ov = << >> THEN << >> ELSE << ADisplay(ov[1]) >>]),
        << >>, bev)
HeadId(h) == IF h.ov = << >> THEN h.auto ELSE h.ov[1]
IdAt(hs, pos) == LET i == SelectInSeq(hs, LAMBDA h : h.pos = pos) IN
                 IF i = 0 THEN << >> ELSE HeadId(hs[i])

(* --- link definitions ------------------------------------------------------------ *)
(* In order: << label, destination, attributes >>.                          *)
Definitions(src, bev) ==
    FoldLeftDomain(LAMBDA acc, i :
        LET e == bev[i] IN
        IF e[1] # "E" \/ e[2][1] # "linkdef" THEN acc
        ELSE Append(acc, << e[2][2],
                FoldLeft(LAMBDA u, l : LET t == TrimSp(src, l) IN u \o Sub(src, t[1], t[2]),
                         << >>, LeafInlines(bev, i)),
                AttrsBefore(src, bev, i - 1) >>), << >>, bev)

(* What a label refers to: [dst, attrs, ty].                                 *)
Resolve(defs, hs, label) ==
    LET d == SelectLastInSeq(defs, LAMBDA x : x[1] = label)
        h == SelectInSeq(hs, LAMBDA x : x.text = label) IN
    IF d > 0 THEN [dst |-> defs[d][2], attrs |-> defs[d][3], ty |-> "ref"]
    ELSE IF h > 0 THEN [dst |-> << 35 >> \o HeadId(hs[h]), attrs |-> << >>, ty |-> "ref"]
    ELSE [dst |-> label, attrs |-> << >>, ty |-> "unres"]

(* --- public events of inline events -------------------------------------------------- *)
PublicInline(defs, hs, src, c, attrs, enter, s, e) ==
    LET tag == IF enter THEN "S" ELSE "E"
        a == IF enter THEN attrs ELSE << >> IN
    IF c[1] \in {"rlink", "rimg"}
    THEN LET r == Resolve(defs, hs, c[2]) IN
         << tag, << IF c[1] = "rlink" THEN "link" ELSE "img", r.dst, r.ty >>,
            IF enter THEN r.attrs \o a ELSE << >>, s, e >>
    ELSE << tag, CASE c[1] = "ilink" -> << "link", c[2], "inline" >>
                   [] c[1] = "iimg" -> << "img", c[2], "inline" >>
                   [] c[1] = "auto" -> << "link", c[2],
                         IF Find(c[2], 0, Len(c[2]), LAMBDA x : x = 64) < Len(c[2]) THEN "email" ELSE "auto" >>
                   [] OTHER -> c,
            a, s, e >>

InlinePublic(defs, hs, src, iev) ==
    FoldLeftDomain(LAMBDA out, i :
        LET e == iev[i]
            attrs == IF i > 1 /\ iev[i - 1][1] = "T" THEN iev[i - 1][3] ELSE << >> IN
        IF e[1] = "T" THEN out
        ELSE Append(out,
            CASE e[1] = "S" -> << "str", << Sub(src, e[4], e[5]) >>, << >>, e[4], e[5] >>
              [] e[1] = "A" -> IF e[2][1] \in {"fnref", "sym"}
                               THEN << e[2][1], << e[2][2] >>, << >>, e[4], e[5] >>
                               ELSE << e[2][1], << >>, << >>, e[4], e[5] >>
              [] e[1] = "M" -> << "att", << >>, attrs, e[4], e[5] >>
              [] OTHER -> PublicInline(defs, hs, src, e[2], attrs, e[1] = "E", e[4], e[5])),
        << >>, iev)

(* --- public events of blocks ----------------------------------------------------------- *)
PublicNode(node, headRow, hs) ==
    CASE node[1] = "list" ->
            LET ty == node[2] IN
            CASE ty[1] = "d" -> << "dl" >>
              [] ty[1] \in {"u", "t"} -> << "list", ty[1], ty[2], node[3] >>
              [] OTHER -> << "list", "o", ty[2], IF ty[2] = "dec" THEN ty[3] ELSE Dec(ty[3]), ty[4], node[3] >>
      [] node[1] = "li" -> IF node[2] = "task" THEN << "task", node[3] >>
                           ELSE IF node[2] = "desc" THEN << "dd" >> ELSE << "li" >>
      [] node[1] = "cell" -> << "cell", node[2], headRow >>
      [] node[1] = "section" -> << "section", IdAt(hs, node[2]) >>
      [] node[1] = "head" -> << "head", node[2], node[3], IdAt(hs, node[4]) >>
      [] node[1] = "code" -> IF StartsB(node[2], 0, Len(node[2]), 61)
                             THEN << "rawb", Tail(node[2]) >> ELSE << "code", node[2] >>
      [] OTHER -> node

(* State of the walk: out, pending attributes << >> or << attrs, s, e >>,    *)
(* whether the current row is a head row.                                   *)
Walk(src, bev, iev, defs, hs) ==
    LET Put(w, ev) == [w EXCEPT !.out = Append(@, ev)]
        Att(w) == << "att", << >>, w.ba[1], w.ba[2], w.ba[3] >>
        Step(w, i) ==
            LET e == bev[i] IN
            CASE e[1] \in {"I", "-"} -> w
              [] e[1] = "A" ->
                    IF e[2] = << "bl" >> THEN Put(w, << "bl", << >>, << >>, e[3], e[4] >>)
                    ELSE IF e[2] = << "tb" >>
                    THEN IF w.ba = << >> THEN Put(w, << "tb", << >>, << >>, e[3], e[4] >>)
                         ELSE [Put(w, << "tb", << >>, w.ba[1], w.ba[2], e[4] >>) EXCEPT !.ba = << >>]
                    ELSE LET as == AttrElems(src, e[3], e[4])
                             w1 == [w EXCEPT !.ba = IF @ = << >> THEN << as, e[3], e[4] >>
                                                    ELSE << @[1] \o as, @[2], e[4] >>] IN
                         \* not attached across a blank line
                         IF i < Len(bev) /\ bev[i + 1][1] = "A" /\ bev[i + 1][2] = << "bl" >>
                         THEN [Put(w1, Att(w1)) EXCEPT !.ba = << >>]
                         ELSE w1
              [] e[1] = "E" ->
                    LET hr == IF e[2][1] = "row" THEN e[2][2] ELSE w.hr
                        c == PublicNode(e[2], hr, hs)
                        st == IF w.ba = << >> THEN << "S", c, << >>, e[3], e[4] >>
                              ELSE << "S", c, w.ba[1], w.ba[2], e[4] >>
                        inner == IF ~LeafNode(e[2]) THEN << >>
                                 ELSE IF VerbatimLeaf(e[2])
                                 THEN LET ls == SelectSeq(LeafInlines(bev, i), LAMBDA l : l[1] < l[2]) IN
                                      [n \in 1..Len(ls) |-> << "str", << Sub(src, ls[n][1], ls[n][2]) >>, << >>,
                                                              ls[n][1], ls[n][2] >>] \o << >>
                                 ELSE InlinePublic(defs, hs, src, iev[i]) IN
                    [w EXCEPT !.out = Append(@, st) \o inner, !.ba = << >>, !.hr = hr]
              [] OTHER ->
                    LET end == << "E", PublicNode(e[2], w.hr, hs), << >>, e[3], e[4] >> IN
                    IF w.ba = << >> THEN Put(w, end)
                    ELSE [w EXCEPT !.out = @ \o << Att(w), end >>, !.ba = << >>]
        w == FoldLeftDomain(Step, [out |-> << >>, ba |-> << >>, hr |-> FALSE], bev) IN
    IF w.ba = << >> THEN w.out ELSE Append(w.out, Att(w))

(* Everything about a document: block events, inline events per leaf,       *)
(* definitions, headings and public events.                                 *)
Document(src) ==
    LET bev == BlockEvents(src)
        iev == [i \in 1..Len(bev) |->
                   IF bev[i][1] = "E" /\ LeafNode(bev[i][2]) /\ ~VerbatimLeaf(bev[i][2])
                   THEN InlineEvents(src, LeafInlines(bev, i)) ELSE << >>] \o << >>
        defs == Definitions(src, bev)
        hs == Headings(src, bev, iev) IN
    [bev |-> bev, iev |-> iev, defs |-> defs, hs |-> hs, out |-> Walk(src, bev, iev, defs, hs)]
=============================================================================
