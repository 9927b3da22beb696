-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* Delivering rendered output to a sink that may refuse.  The output is a  *)
(* sequence of chunks, one per event; the sink answers each offered slice  *)
(*   "F" takes all, "H" half (rounded up), "S" one byte, "Z" nothing,      *)
(*   "I" is interrupted, "E" fails.                                        *)
(* A text sink (push_event ..) only takes all or fails.                     *)
(* State w: [done, res]: bytes delivered; "" while going on, or the error. *)
(***************************************************************************)
EXTENDS Bytes

Writer0 == [done |-> 0, res |-> ""]
Accepted(len, resp) ==
    CASE resp = "F" -> len
      [] resp = "H" -> (len + 1) \div 2
      [] resp = "S" -> Min2(1, len)
      [] OTHER -> 0
Outcome(io, len, resp) ==
    IF ~io THEN IF resp = "F" THEN "" ELSE "fmt"
    ELSE CASE resp = "E" -> "StorageFull"
           [] len > 0 /\ Accepted(len, resp) = 0 /\ resp # "I" -> "WriteZero"
           [] OTHER -> ""
(* The sink is offered len bytes and answers resp.                          *)
SinkStep(w, io, len, resp) ==
    LET r == Outcome(io, len, resp) IN
    [done |-> IF ~io /\ r # "" THEN w.done ELSE w.done + Accepted(len, resp), res |-> r]
(* What is reported when the renderer itself fails.                         *)
OwnFailure(io) == IF io THEN "Other" ELSE "fmt"
(* The event whose output reaches beyond n bytes, given the chunk lengths.  *)
EventAt(lens, n) ==
    LET cum == FoldLeft(LAMBDA acc, l : << Append(acc[1], acc[2] + l), acc[2] + l >>, << << >>, 0 >>, lens)[1]
        k == SelectInSeq(cum, LAMBDA c : c > n) IN
    IF k = 0 THEN Len(lens) ELSE k
=============================================================================
