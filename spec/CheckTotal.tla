------------------------------ MODULE CheckTotal ------------------------------
(***************************************************************************)
(* Runs of the real parser and renderer on one document each: a record is  *)
(* [len, err, obs], the observations up to the end or to a failure.         *)
(***************************************************************************)
EXTENDS Total, Json, IOUtils, TLC

Data == JsonDeserialize(IOEnv.IN)
VARIABLES at, verdict
Ok == << >>

Verdict(r) == IF r.err # "" THEN << "failed", r.err, "after", r.obs >> ELSE TotalErrors(r.len, r.obs)

Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
=============================================================================
