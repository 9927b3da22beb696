------------------------------ MODULE CheckCli ------------------------------
(***************************************************************************)
(* Runs of the real tool.  A record is [scen, limit, want, status, msg,     *)
(* out]: the library's rendering of the input, the exit status, the length  *)
(* of the message, and what arrived at the destination.                     *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils
Data == JsonDeserialize(IOEnv.IN)
VARIABLES at, verdict
Ok == << >>
Verdict(r) ==
    IF Succeeds(r.scen, Len(r.want), r.limit)
    THEN IF r.status # 0 THEN << "failed", r.status >>
         ELSE IF r.out # r.want THEN << "output differs from the library's", Len(r.out), Len(r.want) >>
         ELSE Ok
    ELSE IF r.status = 0 THEN << "reports success" >>
    ELSE IF r.status < 0 THEN << "ended by signal", r.status >>
    ELSE IF r.msg = 0 THEN << "no message" >>
    ELSE Ok
Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict') \o " " \o ToString(Data[at'].scen))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
=============================================================================
