------------------------------ MODULE CheckAttr ------------------------------
(***************************************************************************)
(* Attribute strings parsed by the implementation, and the queries on the  *)
(* resulting sets.  A record is                                             *)
(*   [src, err, ok, pos, as, dbg, re, disp, parts, keys, uniq]              *)
(***************************************************************************)
EXTENDS AttrSet, Json, IOUtils

Data == JsonDeserialize(IOEnv.IN)
Prop == IOEnv.PROP
VARIABLES at, verdict

Syntax(r) ==
    LET x == AttrTryFrom(r.src) IN
    IF r.ok # x.ok THEN << IF x.ok THEN "refused" ELSE "accepted", "expected", x >>
    ELSE IF r.ok THEN IF r.as = x.as THEN Ok ELSE << "elements", "expected", x.as, "observed", r.as >>
    ELSE IF r.pos # x.pos THEN << "error position", "expected", x.pos, "observed", r.pos >>
    ELSE Ok
SingleLine(s) == \A i \in 1..Len(s) : s[i] # 10
Verdict(r) ==
    IF r.err # "" THEN << "failed", r.err >>
    ELSE IF Prop = "C14" THEN Syntax(r)
    ELSE IF ~r.ok THEN Ok
    ELSE LET q == QueryErrors(r) IN
         IF q # Ok THEN q
         ELSE IF SingleLine(r.src) /\ r.as # << >> /\ r.re # "same" THEN << "formatted and parsed again", r.re >>
         ELSE Ok

Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
=============================================================================
