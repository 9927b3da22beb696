------------------------------- MODULE MCAttr -------------------------------
(***************************************************************************)
(* The attribute machine explored completely.                              *)
(* MODE "machine": every state of the machine reached by a shortest string *)
(*   and every byte from it, each then completed by every ending: the      *)
(*   strings are written out (transition coverage of the machine).         *)
(* MODE "strings": all strings of at most DEPTH bytes from an alphabet     *)
(*   that has a member of every class of bytes the syntax distinguishes,   *)
(*   a string being continued as long as nothing in it is invalid.        *)
(* Invariants relate the machine to independent statements about strings.  *)
(***************************************************************************)
EXTENDS Attr, Families, IOUtils

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

Letters == B("{}.#%=\"\\ \nak-") \o << 33, 195 >>     \* 195 stands for a character beyond ASCII
Endings == << B(""), B("{}"), B("}"), B("k}"), B("=k}"), B("\"}"), B("k\"}"), B("%}"), B("} "), B("}x"), B("}{.m}"), B("\nk\"}"), B("\\\"k\" .m}") >>
\* one string into each state of the machine, and variations of it
Access == << B(""), B("{"), B("{."), B("{.k"), B("{#"), B("{#k"), B("{k"), B("{k="), B("{k=v"), B("{k=\""),
    B("{k=\"v"), B("{k=\"\\"), B("{k=\"v\\"), B("{k=\"\n"), B("{k=\"v\n"), B("{k=\"v\nw"), B("{k=\"v\n\\"),
    B("{k=\"v\nw\\"), B("{k=\"v\\\n"), B("{%"), B("{%c"), B("{%c\n"), B("{%\n"), B("{k=\"v\""), B("{.k "),
    B("{.k}"), B("{.k}{"), B("{}"), B("{.k #i k=v "), B("{%c%"), B("{k=\"v\n\n"), B("{k=\"v\nw\n") >>
Bytes1 == << 0, 195 >> \o [i \in 1..127 |-> i]
Char(c) == IF c = 195 THEN EAcute ELSE << c >>
Text(bytes) == FoldLeft(LAMBDA acc, c : acc \o Char(c), << >>, bytes)

VARIABLES str, stage
Init == str = << >> /\ stage = 0
NextMachine ==
    \/ stage = 0 /\ \E n \in 1..Len(Access) : n % Shards = Shard /\ str' = Access[n] /\ stage' = 1
    \/ stage = 1 /\ \E n \in 1..Len(Bytes1) : str' = str \o Char(Bytes1[n]) /\ stage' = 2
    \/ stage = 2 /\ \E n \in 1..Len(Endings) : str' = str \o Endings[n] /\ stage' = 3
\* Worth continuing: nothing invalid so far, but for blanks after a group.
Viable(s) == LET r == AFeed(s, 0, Len(s), ABuilder0) IN r.b.st # "Invalid" /\ AllBlank(s, r.p, Len(s))
NextStrings ==
    /\ stage < Depth
    /\ Viable(str)
    /\ \E n \in 1..Len(Letters) :
          /\ stage # 2 \/ n % Shards = Shard
          /\ str' = str \o Char(Letters[n])
    /\ stage' = stage + 1
Next == IF Mode = "machine" THEN NextMachine ELSE NextStrings
Spec == Init /\ [][Next]_<< str, stage >>
View == str

(* --- independent statements ------------------------------------------------ *)
(* Machine states from which some continuation is accepted.                 *)
RECURSIVE Live(_)
Live(S) == LET T == S \cup { s \in AStates : \E c \in 0..255 : AStep(s, c) \in S } IN
           IF T = S THEN S ELSE Live(T)
LiveStates == Live({"Done"})
AllLive == LiveStates = AStates \ {"Invalid"}
(* A string is refused at the first byte with no valid continuation: every  *)
(* state but Invalid is live, so the position is where the machine gets     *)
(* stuck; and an accepted string is the concatenation of accepted groups.   *)
Declared ==
    LET r == AttrTryFrom(str) e == TrimEnd(str, 0, Len(str)) IN
    /\ r.ok => /\ e > 0 /\ str[1] = 123 /\ str[e] = 125
               /\ \A k \in 0..(e - 1) : ~AttrTryFrom(Sub(str, 0, k) \o << 33 >>).ok
    /\ ~r.ok => r.pos \in 0..e
    /\ ~r.ok /\ r.pos < e =>
         \* the byte at pos can never be right, the bytes before it can
         \* (of text after a group, it is where that text starts)
         /\ \A n \in 1..Len(Endings) : ~AttrTryFrom(Sub(str, 0, r.pos + 1) \o Endings[n]).ok
                                       \/ (IsWs(At(str, r.pos)) /\ AttrTryFrom(Sub(str, 0, r.pos)).ok)
         /\ \E n \in 1..Len(Endings) : AttrTryFrom(Sub(str, 0, r.pos) \o Endings[n]).ok
(* Formatting what was parsed from a single line and parsing it again.      *)
RoundTrip ==
    LET r == AttrTryFrom(str) IN
    r.ok /\ (\A i \in 1..Len(str) : str[i] # 10) /\ r.as # << >> => AttrTryFrom(AFormat(r.as)).as = r.as
(* Queries agree with each other.                                           *)
Queries ==
    LET r == AttrTryFrom(str) u == AUnique(r.as) IN
    r.ok => /\ \A i, j \in 1..Len(u) : u[i][1] = u[j][1] => i = j
            /\ \A i \in 1..Len(u) : AContains(r.as, u[i][1])
                                    /\ (AGet(r.as, u[i][1]) = << u[i][2] >> \/ (u[i][2] = << >> /\ u[i][1] = S_class))
            /\ Len(u) = Cardinality({ AKey(r.as[i]) : i \in 1..Len(r.as) } \ {NoKey})
Emit == PrintT("DOC " \o Hex(str))
=============================================================================
