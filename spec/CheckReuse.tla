------------------------------ MODULE CheckReuse ------------------------------
(***************************************************************************)
(* Histories of renderings recorded from the implementation against Reuse.  *)
(* A record is [evs, lays, fresh, ops, res, err]: the events of each         *)
(* document, the layouts, fresh[d][q] what a renderer of its own wrote for  *)
(* each event of document d in layout q, res for each operation             *)
(* << bytes written, events taken, failed >>.                                *)
(* A renderer of its own may be disturbed by earlier ones as well, so what   *)
(* it wrote is compared with the specification.                              *)
(***************************************************************************)
EXTENDS Reuse, Json, IOUtils

Data == JsonDeserialize(IOEnv.IN)
VARIABLES at, verdict
Ok == << >>

Differs(want, got) ==
    LET m == Min2(Len(want), Len(got))
        k == SelectInSeq([j \in 1..m |-> want[j] # got[j]] \o << >>, LAMBDA t : t) IN
    << "first difference at byte", (IF k = 0 THEN m ELSE k - 1), "expected", want, "observed", got >>
Disturbed(r) ==
    { x \in (1..Len(r.evs)) \X (1..Len(r.lays)) : r.fresh[x[1]][x[2]] # RenderChunks(r.lays[x[2]], r.evs[x[1]]) }
Verdict(r) ==
    IF r.err # "" THEN << "failed", r.err >>
    ELSE IF Disturbed(r) # {}
    THEN LET x == CHOOSE x \in Disturbed(r) : TRUE IN
         << "a new renderer, document", x[1], "layout", x[2] >>
         \o Differs(RenderAll(r.lays[x[2]], r.evs[x[1]]), Cat(r.fresh[x[1]][x[2]]))
    ELSE LET len == [d \in 1..Len(r.fresh) |-> Len(r.fresh[d][1])] \o << >> IN
    FoldLeftDomain(LAMBDA acc, k :
        IF acc[2] # Ok THEN acc
        ELSE LET op == r.ops[k]
                 u == acc[1][op[2]]
                 o == r.res[k] IN
             IF ~UseAllowed(u, op, len) THEN IF o = << << >>, 0, FALSE >> THEN acc ELSE << acc[1], << "operation", k, "not possible" >> >>
             ELSE LET d == IF op[1] \in {"s", "w"} THEN op[3] ELSE u[1]
                      t == Taken(u, op, len)
                      want == Cat(SubSeq(r.fresh[d][op[2]], t[1], t[2])) IN
                  << [acc[1] EXCEPT ![op[2]] = UseStep(u, op, len, o[3])],
                     IF o[3] THEN IF op[1] # "f" THEN << "operation", k, op, "failed without its sink" >>
                                  ELSE IF IsPrefix(o[1], want) THEN Ok
                                  ELSE << "operation", k, op >> \o Differs(want, o[1])
                     ELSE IF o[2] # t[2] - t[1] + 1 THEN << "operation", k, op, "took", o[2], "events" >>
                     ELSE IF o[1] # want THEN << "operation", k, op >> \o Differs(want, o[1])
                     ELSE Ok >>,
        << [q \in 1..8 |-> Unused], Ok >>, r.ops)[2]

Init == at = 0 /\ verdict = Ok
Next == /\ at < Len(Data)
        /\ at' = at + 1
        /\ verdict' = Verdict(Data[at'])
        /\ verdict' = Ok \/ PrintT("VERDICT " \o ToString(at') \o " " \o ToString(verdict'))
        /\ at' < Len(Data) \/ PrintT("DONE " \o ToString(at'))
Spec == Init /\ [][Next]_<< at, verdict >>
=============================================================================
