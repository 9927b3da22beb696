----------------------------- MODULE CheckViews -----------------------------
(***************************************************************************)
(* Histories recorded from real iterators against Views.                    *)
(* A record is [src, ops, err, ev, det, res]: ev the events of the offset   *)
(* iterator, det those of the build with the deterministic feature (or      *)
(* << >>), res for each operation what it reported, the end as << >>.       *)
(***************************************************************************)
EXTENDS Views, Json, IOUtils

Data == JsonDeserialize(IOEnv.IN)
VARIABLES at, verdict
Ok == << >>

Plain(e) == IF e = << >> THEN e ELSE << e[1], e[2], e[3] >>
Seen(kind, e) == IF kind = "plain" THEN Plain(e) ELSE e
Expected(views, op, evs) ==
    LET r == Reported(views, op, Len(evs))
        h == views[op[2]] IN
    ([i \in 1..r[1] |-> Seen(h[1], evs[h[2] + i])] \o << >>) \o (IF r[2] THEN << << >> >> ELSE << >>)
Observed(views, op, res) == [i \in 1..Len(res) |-> Seen(views[op[2]][1], res[i])] \o << >>

Replay(r) ==
    FoldLeftDomain(LAMBDA acc, k :
        IF acc[2] # Ok THEN acc
        ELSE LET op == r.ops[k]
                 e == Expected(acc[1], op, r.ev)
                 o == Observed(acc[1], op, r.res[k]) IN
             << ViewStep(acc[1], op, Len(r.ev)),
                IF e = o THEN Ok ELSE << "operation", k, op, "reported", Len(o), "expected", Len(e),
                    "first difference", SelectInSeq(e, LAMBDA x : ~ \E j \in 1..Len(o) : o[j] = x), e, o >> >>,
        << Views0, Ok >>, r.ops)[2]
Verdict(r) ==
    IF r.err # "" THEN << "failed", r.err >>
    ELSE IF r.det # Ok /\ r.det # r.ev THEN << "deterministic feature changes the events" >>
    ELSE Replay(r)

Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
=============================================================================
