----------------------------- MODULE MCAttrSet -----------------------------
(***************************************************************************)
(* All histories of at most DEPTH operations on an attribute set, written  *)
(* out when complete.                                                       *)
(***************************************************************************)
EXTENDS AttrSet, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

Elems == << << "c", << >>, B("a") >>, << "c", << >>, << >> >>, << "i", << >>, B("i") >>,
    << "p", B("class"), B("b c") >>, << "p", B("id"), B("j\\\"k") >>, << "p", B("k"), B("v\\n\\\\") >>,
    << "p", B("k"), << >> >>, << "x", << >>, B(" note ") >> >>
Strings == << B("{.a k=v}"), B("{k=\"a\\\"b\" #i #j}{.c %x%}"), B("{k=\"a\n b\" k=w class=\"d e\"}"), B("{k}"), B("{}") >>
Ops == {<< "pop" >>, << "rev" >>, << "clone" >>, << "into" >>, << "unvec" >>, << "clear" >>, << "remove", 0 >>, << "remove", 1 >>,
        << "set", 0, B("z\\*") >>, << "insert", 0, Elems[7] >>, << "insert", 1, Elems[1] >>,
        << "extend", << Elems[4], Elems[6], Elems[1] >> >>, << "collect", << Elems[3], Elems[5], Elems[8] >> >>,
        << "vec", << Elems[2], Elems[2], Elems[1] >> >>, << "extend", << >> >>}
       \cup { << "push", Elems[n] >> : n \in 1..Len(Elems) } \cup { << "parse", Strings[n] >> : n \in 1..Len(Strings) }

OpSeq == SetToSeq(Ops)
VARIABLES set, hist
Init == set = << >> /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E n \in 1..Len(OpSeq) :
              /\ Len(hist) # 0 \/ n % Shards = Shard
              /\ hist' = Append(hist, OpSeq[n])
              /\ set' = SetStep(set, OpSeq[n])
Spec == Init /\ [][Next]_<< set, hist >>

(* The queries agree with the elements and with each other.                 *)
Keys == { AKey(set[i]) : i \in 1..Len(set) } \ {NoKey}
Queries ==
    LET u == AUnique(set) IN
    /\ { u[i][1] : i \in 1..Len(u) } = Keys /\ Len(u) = Cardinality(Keys)
    /\ \A i \in 1..Len(u) : AContains(set, u[i][1])
    /\ \A i, j \in 1..Len(u) : i < j =>
          (CHOOSE a \in 1..Len(set) : AKey(set[a]) = u[i][1] /\ \A b \in 1..(a - 1) : AKey(set[b]) # u[i][1])
          < (CHOOSE a \in 1..Len(set) : AKey(set[a]) = u[j][1] /\ \A b \in 1..(a - 1) : AKey(set[b]) # u[j][1])
    /\ \A i \in 1..Len(u) : u[i][1] # S_class =>
          u[i][2] = set[CHOOSE a \in 1..Len(set) : AKey(set[a]) = u[i][1]
                            /\ \A b \in (a + 1)..Len(set) : AKey(set[b]) # u[i][1]][3]
Emit == Len(hist) < Depth \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
