------------------------------- MODULE MCSink -------------------------------
(***************************************************************************)
(* A writer delivering a small output against every sink of at most DEPTH  *)
(* answers.  The answers are written out, to be given to the implementation *)
(* while it renders real documents.                                         *)
(***************************************************************************)
EXTENDS Sink, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Io == IOEnv.IO = "1"
Lens == << 0, 3, 1, 0, 2 >>              \* chunk lengths of the small output
Total == 6

VARIABLES w, hist, got
Init == w = Writer0 /\ hist = << >> /\ got = << >>
(* A write offers the rest of the current chunk, or some first part of it.  *)
Rest == LET k == EventAt(Lens, w.done) IN FoldLeft(LAMBDA a, l : a + l, 0, SubSeq(Lens, 1, k)) - w.done
Next == /\ Len(hist) < Depth /\ w.res = "" /\ w.done < Total
        /\ \E resp \in IF Io THEN {"F", "H", "S", "Z", "I", "E"} ELSE {"F", "E"}, len \in 1..Rest :
              /\ w' = SinkStep(w, Io, len, resp)
              /\ hist' = Append(hist, resp)
              /\ got' = got \o [i \in 1..(w'.done - w.done) |-> w.done + i]
Spec == Init /\ [][Next]_<< w, hist, got >>

PrefixDelivered == got = [i \in 1..Len(got) |-> i] \o << >> /\ Len(got) = w.done
StopsAtError == [][w.res = ""]_<< w, hist, got >>
Emit == ~(w.res # "" \/ Len(hist) = Depth) \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
