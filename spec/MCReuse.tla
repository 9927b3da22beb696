------------------------------- MODULE MCReuse -------------------------------
(***************************************************************************)
(* All histories of at most DEPTH operations on two renderers of different *)
(* layouts and three small documents, carried out with the specified        *)
(* renderer.  A failing sink leaves it either before or after the event.    *)
(* Maximal histories are written out.                                       *)
(***************************************************************************)
EXTENDS Reuse, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Ev(t, x) == << t, x, << >>, 0, 0 >>
Docs == << << Ev("S", << "doc" >>), Ev("S", << "list", "u", 45, TRUE >>), Ev("S", << "li" >>), Ev("S", << "para" >>),
              Ev("fnref", << B("a") >>), Ev("E", << "para" >>), Ev("E", << "li" >>), Ev("E", << "list", "u", 45, TRUE >>),
              Ev("S", << "fn", B("a") >>), Ev("S", << "para" >>), Ev("str", << B("x") >>), Ev("E", << "para" >>),
              Ev("E", << "fn", B("a") >>), Ev("E", << "doc" >>) >>,
           << Ev("S", << "doc" >>), Ev("S", << "linkdef", B("l") >>), Ev("str", << B("u") >>), Ev("E", << "linkdef", B("l") >>),
              Ev("S", << "quote" >>), Ev("S", << "para" >>), Ev("S", << "img", B("d"), "inline" >>), Ev("str", << B("<") >>),
              Ev("E", << "img", B("d"), "inline" >>), Ev("fnref", << B("a") >>), Ev("E", << "para" >>), Ev("E", << "quote" >>),
              Ev("E", << "doc" >>) >>,
           << Ev("S", << "doc" >>), Ev("S", << "rawb", B("tex") >>), Ev("str", << B("t") >>), Ev("E", << "rawb", B("tex") >>),
              Ev("S", << "para" >>), Ev("str", << B("p") >>), Ev("E", << "para" >>), Ev("E", << "doc" >>) >> >>
Lens == [d \in 1..Len(Docs) |-> Len(Docs[d])] \o << >>
Lays == << DefaultLayout, [min |-> FALSE, ind |-> << 9 >>, lvl |-> 1] >>
Fresh == [d \in 1..Len(Docs) |-> [q \in 1..Len(Lays) |-> RenderChunks(Lays[q], Docs[d])]]

VARIABLES rend, use, hist, same
vars == << rend, use, hist, same >>
Init == /\ rend = [q \in 1..Len(Lays) |-> Render0(Lays[q])] /\ use = [q \in 1..Len(Lays) |-> Unused]
        /\ hist = << >> /\ same = TRUE
Ops(q) == { << o, q, d >> : o \in {"s", "w"}, d \in 1..Len(Docs) }
          \cup { << "n", q, n >> : n \in {1, 5} } \cup { << "r", q, 0 >> } \cup { << "f", q, n >> : n \in {1, 4} }
Do(q, op) ==
    /\ UseAllowed(use[q], op, Lens)
    /\ LET d == IF op[1] \in {"s", "w"} THEN op[3] ELSE use[q][1]
           t == Taken(use[q], op, Lens)
           last == IF op[1] = "f" THEN Min2(t[2], t[1] + op[3] - 1) ELSE t[2]
           evs == SubSeq(Docs[d], t[1], last)
           r1 == FoldLeft(RenderStep, [rend[q] EXCEPT !.out = << >>], evs) IN
       \E reached \in IF op[1] = "f" THEN {last - 1, last} ELSE {last} :
          /\ rend' = [rend EXCEPT ![q] = FoldLeft(RenderStep, @, SubSeq(Docs[d], t[1], reached))]
          /\ use' = [use EXCEPT ![q] = UseStep(@, op, Lens, op[1] = "f")]
          /\ same' = (r1.out = Cat(SubSeq(Fresh[d][q], t[1], last)))
          /\ hist' = Append(hist, op)
Next == Len(hist) < Depth /\ \E q \in 1..Len(Lays) : \E op \in Ops(q) : Do(q, op)
Spec == Init /\ [][Next]_vars

AsIfNew == same
Emit == Len(hist) < Depth \/ PrintT("HIST " \o ToJson(hist))
View == << rend, use, hist, same >>
=============================================================================
