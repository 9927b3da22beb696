------------------------------ MODULE CheckKinds ------------------------------
(***************************************************************************)
(* Classifications and conversions recorded from the implementation.        *)
(* A record is [ev, flags, err], or [bytes, chars, err]: what every byte and *)
(* every character that converts to a bullet converts back to, as           *)
(* << given, the bullet as a byte, as a character >>.                        *)
(***************************************************************************)
EXTENDS Kinds, Json, IOUtils

Data == JsonDeserialize(IOEnv.IN)
VARIABLES at, verdict

Verdict(r) ==
    IF r.err # "" THEN << "failed", r.err >>
    ELSE IF "bytes" \in DOMAIN r
    THEN IF r.bytes # Converted THEN << "bytes", r.bytes, "expected", Converted >>
         ELSE IF r.chars # Converted THEN << "characters", r.chars, "expected", Converted >>
         ELSE KindOk
    ELSE ClassError(r.ev, r.flags)

Init == at = 0 /\ verdict = KindOk
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = KindOk \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
=============================================================================
