-------------------------------- MODULE Reuse --------------------------------
(***************************************************************************)
(* Renderers used more than once.  A use of a renderer is                   *)
(* << document, events taken, broken >>: the document it is rendering (0:   *)
(* none yet), how much of it, and whether its sink has failed since.        *)
(* An operation is << op, renderer, argument >>:                            *)
(*   "s" begin the document with that number (the events up to its start),  *)
(*       whatever has become of the previous one                            *)
(*   "w" the same, and all of its events at once                            *)
(*   "n" take so many further events       "r" take all remaining events    *)
(*   "f" take the remaining events, the sink failing at that write          *)
(* However a renderer was used before, and whatever other renderers do in   *)
(* between, it writes of a document what a new one would.                   *)
(***************************************************************************)
EXTENDS Html

Unused == << 0, 0, FALSE >>
(* len: number of events of the documents.                                  *)
UseAllowed(u, op, len) ==
    CASE op[1] \in {"s", "w"} -> op[3] \in 1..Len(len)
      [] OTHER -> u[1] > 0 /\ ~u[3] /\ u[2] < len[u[1]]
(* Events taken by an operation, as << first, last >>.                       *)
Taken(u, op, len) ==
    CASE op[1] = "s" -> << 1, 1 >>
      [] op[1] = "w" -> << 1, len[op[3]] >>
      [] op[1] = "n" -> << u[2] + 1, Min2(u[2] + op[3], len[u[1]]) >>
      [] OTHER -> << u[2] + 1, len[u[1]] >>
UseStep(u, op, len, failed) ==
    << IF op[1] \in {"s", "w"} THEN op[3] ELSE u[1], Taken(u, op, len)[2], failed >>
=============================================================================
