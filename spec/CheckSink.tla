------------------------------ MODULE CheckSink ------------------------------
(***************************************************************************)
(* Writes observed by sinks while the implementation rendered into them.    *)
(* A record is [api, own, chunks, res, stop, calls]: the event at which the *)
(* renderer itself fails (0: none), the output of each event,               *)
(* the reported result, the number of events taken, and the calls           *)
(* << offered bytes, answer >>.  api: "push", "write" one event at a time,  *)
(* "pushes", "writes" all at once, "str" to a string.                       *)
(***************************************************************************)
EXTENDS Sink, Json, IOUtils

Data == JsonDeserialize(IOEnv.IN)
VARIABLES at, verdict
Ok == << >>

Verdict(r) ==
    LET own == r.own > 0 /\ r.own <= Len(r.chunks)
        taken == IF own THEN r.own ELSE Len(r.chunks)
        full == Cat(IF own THEN SubSeq(r.chunks, 1, r.own - 1) ELSE r.chunks)
        io == r.api \in {"write", "writes"}
        lens == [i \in 1..Len(r.chunks) |-> Len(r.chunks[i])] \o << >>
        fin == FoldLeftDomain(LAMBDA acc, k :
            IF acc[2] # Ok THEN acc
            ELSE LET c == r.calls[k] w == acc[1] IN
                 IF w.res # "" THEN << w, << "write after an error", k, w >> >>
                 ELSE IF ~HasPrefix(full, w.done, Len(full), c[1])
                 THEN << w, << "offered something else than the rest of the output", k, w.done, c[1] >> >>
                 ELSE << SinkStep(w, io, Len(c[1]), c[2]), Ok >>,
            << Writer0, Ok >>, r.calls)
        w == fin[1] IN
    IF fin[2] # Ok THEN fin[2]
    ELSE IF r.res # (IF w.res = "" /\ own THEN OwnFailure(io) ELSE w.res) THEN << "result", r.res, "expected", w.res >>
    ELSE IF w.res = "" THEN IF w.done # Len(full) THEN << "not all delivered", w.done, Len(full) >>
                            ELSE IF r.stop # taken THEN << "events taken", r.stop >>
                            ELSE Ok
    ELSE IF r.calls[Len(r.calls)][1] = << >> /\ r.stop < EventAt(lens, w.done)
    THEN Ok                                \* refused an empty write of an earlier event
    ELSE IF r.stop # EventAt(lens, w.done) THEN << "stopped at event", r.stop, "expected", EventAt(lens, w.done) >>
    ELSE Ok

Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
=============================================================================
