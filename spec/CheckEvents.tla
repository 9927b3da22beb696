----------------------------- MODULE CheckEvents -----------------------------
(***************************************************************************)
(* Validation of event streams recorded from the implementation: one step  *)
(* per recorded document, whose verdict must be "holds".                   *)
(* IN: file with records [src, err, ev]; PROP: the property.               *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Data == JsonDeserialize(IOEnv.IN)
Prop == IOEnv.PROP
VARIABLES at, verdict

Evaluate(src, evs) ==
    IF Prop = "C01" THEN C01(evs)
    ELSE
    LET d == Document(src)
        x == d.out IN
    CASE Prop = "C03" -> C03(src, evs, x)
      [] Prop = "C05" -> C05(src, evs, x)
      [] Prop = "C06" -> C06(src, evs, x)
      [] Prop = "C07" -> C07(src, evs, x)
      [] Prop = "C08" -> C08(src, evs, x)
      [] Prop = "C09" -> C09(src, evs, x, d)
      [] Prop = "C10" -> C10(src, evs, x)
      [] Prop = "C11" -> C11(src, evs, x)
      [] Prop = "C12" -> C12(src, evs, x)
      [] Prop = "C13" -> C13(src, evs, x, d)
      [] Prop = "C16" -> C16(src, evs, x)
      [] Prop = "ALL" -> FirstOf(<< C01(evs), C03(src, evs, x), C05(src, evs, x), C06(src, evs, x),
                            C07(src, evs, x), C08(src, evs, x), C09(src, evs, x, d), C10(src, evs, x),
                            C11(src, evs, x), C12(src, evs, x), C13(src, evs, x, d), C16(src, evs, x),
                            Differ("event", x, evs) >>)
(* A document that cannot be parsed at all has no stream to judge (C02).    *)
Verdict(r) == IF r.err # "" THEN << "no events", r.err >> ELSE Evaluate(r.src, r.ev)

Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
Holds == verdict = Ok
=============================================================================
