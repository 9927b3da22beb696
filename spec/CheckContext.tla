----------------------------- MODULE CheckContext -----------------------------
(***************************************************************************)
(* Validation of the event streams of documents in contexts (C23).         *)
(* IN: file with records [doc, ctx]: the record [src, err, ev] of a        *)
(* document and those of the same document in each of the contexts.         *)
(***************************************************************************)
EXTENDS Context, Json, IOUtils

Data == JsonDeserialize(IOEnv.IN)
VARIABLES at, verdict

Verdict(r) ==
    IF r.doc.err # "" THEN << "no events", r.doc.err >>
    ELSE FirstOf([j \in 1..Len(Contexts) |->
            IF r.ctx[j].err # "" THEN << "no events", r.ctx[j].err >>
            ELSE C23(Contexts[j], r.doc.src, r.doc.ev, r.ctx[j].src, r.ctx[j].ev)] \o << >>)

Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
Holds == verdict = Ok
=============================================================================
