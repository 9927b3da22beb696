-------------------------------- MODULE Total --------------------------------
(***************************************************************************)
(* Totality: what a consumer may see of parsing and rendering a document.  *)
(* A consumer constructs an iterator, takes events until it reports the    *)
(* end, asks again, and renders with every layout; each step ends, with a  *)
(* result of its kind.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* A finite document has finitely many events: every event but the closing *)
(* of blocks stands for some source, and a byte is in few blocks' markers.  *)
EventLimit(len) == 64 + 16 * len

(* Observations, in order: "construct", "event" (n of them), "end", "again" *)
(* (asked k times, answered none each time), "render" (each layout).        *)
Total0 == [phase |-> "construct", events |-> 0, asked |-> 0, rendered |-> 0]
TotalStep(t, o) ==
    CASE t.phase = "construct" /\ o[1] = "construct" -> [t EXCEPT !.phase = "drain"]
      [] t.phase = "drain" /\ o[1] = "events" -> [t EXCEPT !.events = @ + o[2]]
      [] t.phase = "drain" /\ o[1] = "none" -> [t EXCEPT !.phase = "ended"]
      [] t.phase = "ended" /\ o[1] = "none" -> [t EXCEPT !.asked = @ + 1]
      [] t.phase = "ended" /\ o[1] = "construct" -> [t EXCEPT !.phase = "drain", !.events = 0]
      [] t.phase = "ended" /\ o[1] = "rendered" -> [t EXCEPT !.rendered = @ + 1]
      [] OTHER -> [t EXCEPT !.phase = "wrong"]
TotalErrors(len, obs) ==
    LET fin == FoldLeftDomain(LAMBDA acc, k :
                   IF acc[2] # << >> THEN acc
                   ELSE LET t == TotalStep(acc[1], obs[k]) IN
                        << t, IF t.phase = "wrong" THEN << "observed", k, obs[k], "in", acc[1] >>
                              ELSE IF t.events > EventLimit(len) THEN << "too many events", t.events >>
                              ELSE << >> >>, << Total0, << >> >>, obs) IN
    IF fin[2] # << >> THEN fin[2]
    ELSE IF fin[1].phase # "ended" THEN << "stops in", fin[1] >>
    ELSE << >>
=============================================================================
