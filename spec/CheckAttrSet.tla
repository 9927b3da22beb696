---------------------------- MODULE CheckAttrSet ----------------------------
(***************************************************************************)
(* Histories of operations on real attribute sets: after every operation   *)
(* the set and the queries on it.  A record is [ops, err, res].             *)
(***************************************************************************)
EXTENDS AttrSet, Json, IOUtils

Data == JsonDeserialize(IOEnv.IN)
VARIABLES at, verdict

Verdict(r) ==
    IF r.err # "" THEN << "failed", r.err >>
    ELSE FoldLeftDomain(LAMBDA acc, k :
            IF acc[2] # Ok THEN acc
            ELSE LET x == SetStep(acc[1], r.ops[k]) o == r.res[k] IN
                 << x, IF o.as # x THEN << "operation", k, r.ops[k], "gives", o.as, "expected", x >>
                       ELSE LET q == QueryErrors(o) IN IF q = Ok THEN Ok ELSE << "after", k, r.ops[k], q >> >>,
            << << >>, Ok >>, r.ops)[2]

Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
=============================================================================
