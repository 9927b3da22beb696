----------------------------- MODULE CheckRender -----------------------------
(***************************************************************************)
(* Validation of renderings recorded from the implementation.               *)
(* IN: file with records [src, ev, lays, err]; PROP: the property.          *)
(***************************************************************************)
EXTENDS RenderProps, Json, IOUtils

Data == JsonDeserialize(IOEnv.IN)
Prop == IOEnv.PROP
VARIABLES at, verdict

Verdict(r) ==
    IF r.err # "" THEN << "no rendering", r.err >>
    ELSE CASE Prop = "C17" -> C17(r.ev, r.lays)
           [] Prop = "C18" -> C18(r.ev, r.lays)
           [] Prop = "C19" -> C19(r.ev, r.lays)
           [] Prop = "C20" -> C20(r.ev, r.lays)
           [] OTHER -> FirstOf(<< C17(r.ev, r.lays), C18(r.ev, r.lays), C19(r.ev, r.lays), C20(r.ev, r.lays) >>)

Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
Holds == verdict = Ok
=============================================================================
