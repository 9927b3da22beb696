-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* Iterators over one document.  A handle is a position in the document's  *)
(* event stream; handles never influence each other.                       *)
(* A handle is << kind, events consumed >>, kind "plain" (events only),    *)
(* "offset" (events with ranges) or "gone".                                *)
(* An operation is << op, handle, count >>:                                *)
(*   "n" advance count times (stopping at the end)                         *)
(*   "a" advance until the end is reported                                 *)
(*   "c" clone into a new handle        "p" parse the source again         *)
(*   "o" turn into an offset iterator   "d" drop                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Views0 == << << "plain", 0 >> >>
Allowed(views, op) ==
    /\ op[2] \in 1..Len(views)
    /\ CASE op[1] \in {"c", "o"} -> views[op[2]][1] = "plain"
         [] op[1] \in {"n", "a", "d"} -> views[op[2]][1] # "gone"
         [] OTHER -> TRUE
(* Position after an operation, for a document of n events.                 *)
Advance(pos, k, n) == IF pos + k > n THEN n ELSE pos + k
ViewStep(views, op, n) ==
    LET h == op[2] IN
    CASE op[1] = "n" -> [views EXCEPT ![h][2] = Advance(@, op[3], n)]
      [] op[1] = "a" -> [views EXCEPT ![h][2] = n]
      [] op[1] = "c" -> Append(views, views[h])
      [] op[1] = "p" -> Append(views, << "plain", 0 >>)
      [] op[1] = "o" -> [views EXCEPT ![h][1] = "offset"]
      [] OTHER -> [views EXCEPT ![h][1] = "gone"]
(* How many events an operation reports, and whether it reports the end.    *)
Reported(views, op, n) ==
    LET left == n - views[op[2]][2] IN
    CASE op[1] = "n" -> IF op[3] <= left THEN << op[3], FALSE >> ELSE << left, TRUE >>
      [] op[1] = "a" -> << left, TRUE >>
      [] OTHER -> << 0, FALSE >>
=============================================================================
