------------------------------- MODULE MCViews -------------------------------
(***************************************************************************)
(* All histories of at most DEPTH operations on at most HANDLES handles of *)
(* a document of EVENTS events.  Maximal histories are written out.        *)
(***************************************************************************)
EXTENDS Views, IOUtils, Json

MaxOps == atoi(IOEnv.DEPTH)
MaxViews == atoi(IOEnv.HANDLES)
Events == atoi(IOEnv.EVENTS)

VARIABLES views, hist, read      \* read: per handle, the event numbers it reported
vars == << views, hist, read >>

Ops == { << o, h, k >> : o \in {"n"}, h \in 1..MaxViews, k \in {1, 3} }
       \cup { << o, h, 0 >> : o \in {"a", "c", "o", "d"}, h \in 1..MaxViews } \cup { << "p", 1, 0 >> }
Init == views = Views0 /\ hist = << >> /\ read = << << >> >>
Do(op) ==
    /\ Len(hist) < MaxOps
    /\ Allowed(views, op)
    /\ op[1] \in {"c", "p"} => Len(views) < MaxViews
    /\ views' = ViewStep(views, op, Events)
    /\ hist' = Append(hist, op)
    /\ read' = LET k == Reported(views, op, Events)[1]
                   from == views[op[2]][2]
                   new == [i \in 1..k |-> from + i] \o << >> IN
               CASE op[1] \in {"n", "a"} -> [read EXCEPT ![op[2]] = @ \o new]
                 [] op[1] = "c" -> Append(read, read[op[2]])
                 [] op[1] = "p" -> Append(read, << >>)
                 [] OTHER -> read
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

(* What a handle and its ancestors have read is always a prefix of the      *)
(* document, however the others were used in between.                       *)
ReadInOrder == \A h \in 1..Len(views) : read[h] = [i \in 1..views[h][2] |-> i] \o << >>
(* An operation moves at most one handle.                                   *)
Independent == [][\A h \in 1..Len(views) : hist'[Len(hist')][2] # h => views'[h] = views[h]]_vars
Emit == Len(hist) < MaxOps \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
