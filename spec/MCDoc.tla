-------------------------------- MODULE MCDoc --------------------------------
(***************************************************************************)
(* Exhaustive exploration of families of documents: a document grows by    *)
(* one token at a time, and the property must hold of the specified event  *)
(* stream, and of its rendering, in every state.  Every document reached   *)
(* is also written out, to be replayed into the implementation.            *)
(* PLAN: file with a sequence of [family, depth]; PROP: the property;      *)
(* SHARD of SHARDS: the part explored, decided by the first two tokens;    *)
(* LAWS: the number of tokens up to which the property is evaluated here    *)
(* (it is evaluated again on every stream the implementation produces).     *)
(***************************************************************************)
EXTENDS Props, Families, Total, Json, IOUtils

RP == INSTANCE RenderProps
CX == INSTANCE Context

Plan == JsonDeserialize(IOEnv.PLAN)
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Prop == IOEnv.PROP
Laws == atoi(IOEnv.LAWS)

VARIABLES doc, size, fam         \* fam: index into the plan

Init == /\ size = 0
        /\ fam \in 1..Len(Plan)
        /\ doc \in { Starts(Plan[fam][1])[n] : n \in 1..Len(Starts(Plan[fam][1])) }
\* the other documents belong to other shards
Weight(text) == FoldLeftDomain(LAMBDA acc, n : (acc + (2 * n + 1) * text[n]) % 65521, 0, text)
Mine(text) == (Weight(text) % 509) % Shards = Shard
Next == /\ size < Plan[fam][2]
        /\ size' = size + 1
        /\ \E n \in 1..Len(Tokens(Plan[fam][1])) : doc' = doc \o Tokens(Plan[fam][1])[n]
        /\ size # 1 \/ Mine(doc')
        /\ UNCHANGED fam
Spec == Init /\ [][Next]_<< doc, size, fam >>
View == << doc, fam >>

Lays == << [min |-> FALSE, ind |-> << >>, lvl |-> 0], [min |-> TRUE, ind |-> << >>, lvl |-> 0],
           [min |-> FALSE, ind |-> << 9 >>, lvl |-> 1] >>
Rendered(evs) == [n \in 1..Len(Lays) |-> [lay |-> Lays[n], chunks |-> RP!RenderChunks(Lays[n], evs), alt |-> TRUE]] \o << >>

Verdict(src) ==
    LET d == Document(src) x == d.out IN
    CASE Prop = "C01" -> C01(x)
      [] Prop = "C03" -> C03(src, x, x)
      [] Prop = "C05" -> C05(src, x, x)
      [] Prop = "C06" -> C06(src, x, x)
      [] Prop = "C07" -> C07(src, x, x)
      [] Prop = "C08" -> C08(src, x, x)
      [] Prop = "C09" -> C09(src, x, x, d)
      [] Prop = "C10" -> C10(src, x, x)
      [] Prop = "C11" -> C11(src, x, x)
      [] Prop = "C12" -> C12(src, x, x)
      [] Prop = "C13" -> C13(src, x, x, d)
      [] Prop = "C16" -> C16(src, x, x)
      [] Prop = "C02" -> IF Len(x) > EventLimit(Len(src)) THEN << "too many events", Len(x) >> ELSE Ok
      [] Prop = "C17" -> RP!C17(x, Rendered(x))
      [] Prop = "C18" -> RP!C18(x, Rendered(x))
      [] Prop = "C19" -> RP!C19(x, Rendered(x))
      [] Prop = "C20" -> RP!C20(x, Rendered(x))
      [] Prop = "C23" -> LET t == CX!Plain(src) IN
                         IF t = << >> THEN Ok
                         ELSE LET y == Document(t).out IN
                              FirstOf([j \in 1..Len(CX!Contexts) |->
                                         LET w == CX!Wrap(CX!Contexts[j], t) IN
                                         CX!C23(CX!Contexts[j], t, y, w, Document(w).out)] \o << >>)
      [] OTHER -> << >>

Emit == (size < 2 /\ Shard # 0) \/ PrintT("DOC " \o Hex(doc))
Law == (size < 2 /\ Shard # 0) \/ size > Laws \/ LET v == Verdict(doc) IN v = << >> \/ (PrintT(<< "LAW", Hex(doc), v >>) /\ FALSE)
=============================================================================
