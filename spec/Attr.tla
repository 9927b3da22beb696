-------------------------------- MODULE Attr --------------------------------
(***************************************************************************)
(* Attribute syntax  {.class #id key=value key="quoted" %comment%}         *)
(* as a byte-driven state machine, the element sequence it builds, and the *)
(* queries on attribute sets.                                              *)
(***************************************************************************)
EXTENDS Bytes

(* --- the machine --------------------------------------------------------- *)
AStates == {"Start", "Whitespace", "CommentFirst", "Comment", "CommentNewline",
            "ClassFirst", "Class", "IdentifierFirst", "Identifier", "Key",
            "ValueFirst", "Value", "ValueQuoted", "ValueEscape", "ValueNewline",
            "ValueContinued", "ValueContinuedEscape", "Done", "Invalid"}

AStepDef(st, c) ==
    CASE st = "Start" -> IF c = 123 THEN "Whitespace" ELSE "Invalid"
      [] st = "Whitespace" ->
            IF c = 125 THEN "Done"
            ELSE IF c = 46 THEN "ClassFirst"
            ELSE IF c = 35 THEN "IdentifierFirst"
            ELSE IF c = 37 THEN "CommentFirst"
            ELSE IF c \in NameSet THEN "Key"
            ELSE IF c \in WsSet THEN "Whitespace"
            ELSE "Invalid"
      [] st \in {"CommentFirst", "Comment", "CommentNewline"} ->
            IF c = 37 THEN "Whitespace"
            ELSE IF c = 125 THEN "Done"
            ELSE IF c = 10 THEN "CommentNewline"
            ELSE "Comment"
      [] st = "ClassFirst" -> IF c \in NameSet THEN "Class" ELSE "Invalid"
      [] st = "IdentifierFirst" -> IF c \in NameSet THEN "Identifier" ELSE "Invalid"
      [] st \in {"Class", "Identifier", "Value"} ->
            IF c \in NameSet THEN st
            ELSE IF c \in WsSet THEN "Whitespace"
            ELSE IF c = 125 THEN "Done"
            ELSE "Invalid"
      [] st = "Key" ->
            IF c \in NameSet THEN "Key" ELSE IF c = 61 THEN "ValueFirst" ELSE "Invalid"
      [] st = "ValueFirst" ->
            IF c \in NameSet THEN "Value" ELSE IF c = 34 THEN "ValueQuoted" ELSE "Invalid"
      [] st = "ValueQuoted" ->
            IF c = 34 THEN "Whitespace"
            ELSE IF c = 10 THEN "ValueNewline"
            ELSE IF c = 92 THEN "ValueEscape"
            ELSE "ValueQuoted"
      [] st = "ValueEscape" -> IF c = 10 THEN "ValueNewline" ELSE "ValueQuoted"
      [] st \in {"ValueNewline", "ValueContinued"} ->
            IF c = 34 THEN "Whitespace"
            ELSE IF c = 10 THEN "ValueNewline"
            ELSE IF c = 92 THEN "ValueContinuedEscape"
            ELSE "ValueContinued"
      [] st = "ValueContinuedEscape" ->
            IF c = 10 THEN "ValueNewline" ELSE "ValueContinued"
      [] OTHER -> "Invalid"

AStepTable == [st \in AStates |-> [i \in 1..256 |-> AStepDef(st, i - 1)] \o << >>]
AStep(st, c) == AStepTable[st][c + 1]

(* Run the machine over src[p..e) from st until it is Done or Invalid;     *)
(* p is the offset after the last byte consumed.                           *)
RECURSIVE ARun(_, _, _, _)
ARun(src, p, e, st) ==
    IF p >= e THEN [st |-> st, p |-> p]
    ELSE LET t == AStep(st, At(src, p)) IN
         IF t = "Done" \/ t = "Invalid" THEN [st |-> t, p |-> p + 1]
         ELSE ARun(src, p + 1, e, t)

(* Length of the single attribute group at the start of src[p..e), or 0.   *)
AttrValidLen(src, p, e) ==
    LET r == ARun(src, p, e, "Start") IN IF r.st = "Done" THEN r.p - p ELSE 0

(* --- building the elements ------------------------------------------------ *)
(* An element is <<kind, key, value>> with kind "c"lass, "i"d, "p"air or   *)
(* "x" for a comment.  A builder is [st, as, sep]: machine state, elements *)
(* so far, and whether the next byte of a quoted value starts a new line.  *)
ABuilder0 == [st |-> "Start", as |-> << >>, sep |-> FALSE]

AppendVal(as, bytes) ==
    [as EXCEPT ![Len(as)] = << as[Len(as)][1], as[Len(as)][2], as[Len(as)][3] \o bytes >>]
AppendKey(as, c) ==
    [as EXCEPT ![Len(as)] = << as[Len(as)][1], Append(as[Len(as)][2], c), << >> >>]
QuotedStates == {"ValueQuoted", "ValueEscape", "ValueContinued", "ValueContinuedEscape"}

(* Effect of consuming byte c, the machine moving from st to t.            *)
ABuild(b, c, t) ==
    LET st == b.st as == b.as IN
    CASE t = "Class" -> [st |-> t, sep |-> FALSE,
            as |-> IF st = "Class" THEN AppendVal(as, <<c>>) ELSE Append(as, <<"c", << >>, <<c>> >>)]
      [] t = "Identifier" -> [st |-> t, sep |-> FALSE,
            as |-> IF st = "Identifier" THEN AppendVal(as, <<c>>) ELSE Append(as, <<"i", << >>, <<c>> >>)]
      [] t = "Key" -> [st |-> t, sep |-> FALSE,
            as |-> IF st = "Key" THEN AppendKey(as, c) ELSE Append(as, <<"p", <<c>>, << >> >>)]
      [] t = "Value" -> [st |-> t, sep |-> FALSE, as |-> AppendVal(as, <<c>>)]
      [] t \in QuotedStates /\ st # "ValueFirst" ->
            [st |-> t, sep |-> FALSE,
             as |-> AppendVal(as, IF b.sep /\ as[Len(as)][3] # << >> THEN <<32, c>> ELSE <<c>>)]
      [] t = "ValueNewline" -> [st |-> t, sep |-> TRUE, as |-> as]
      [] t = "CommentFirst" -> [st |-> t, sep |-> FALSE, as |-> Append(as, <<"x", << >>, << >> >>)]
      [] t \in {"Comment", "CommentNewline"} -> [st |-> t, sep |-> FALSE, as |-> AppendVal(as, <<c>>)]
      [] OTHER -> [st |-> t, sep |-> b.sep, as |-> as]

(* Feed src[p..e) to a builder.  Adjacent groups continue; otherwise stops *)
(* after the closing brace.  Result p is the offset reached; st is Invalid *)
(* when byte p is not acceptable.                                          *)
RECURSIVE AFeed(_, _, _, _)
AFeed(src, p, e, b) ==
    IF p >= e THEN [b |-> b, p |-> p]
    ELSE LET c == At(src, p)
             t == AStep(b.st, c) IN
         IF t = "Invalid" THEN [b |-> [b EXCEPT !.st = "Invalid"], p |-> p]
         ELSE LET n == ABuild(b, c, t) IN
              IF t # "Done" THEN AFeed(src, p + 1, e, n)
              ELSE IF StartsB(src, p + 1, e, 123)
              THEN AFeed(src, p + 1, e, [n EXCEPT !.st = "Start"])
              ELSE [b |-> n, p |-> p + 1]

(* Elements of the (valid) attribute groups at src[p..e).                  *)
AttrElems(src, p, e) == AFeed(src, p, e, ABuilder0).b.as

(* Parsing a whole string: [ok, as, pos].                                  *)
AttrTryFrom(s) ==
    LET e == TrimEnd(s, 0, Len(s))
        r == AFeed(s, 0, e, ABuilder0) IN
    IF r.b.st = "Done" /\ r.p = e THEN [ok |-> TRUE, as |-> r.b.as, pos |-> 0]
    ELSE [ok |-> FALSE, as |-> << >>, pos |-> r.p]

(* --- queries --------------------------------------------------------------- *)
S_class == B("class")
S_id == B("id")
NoKey == << 0 - 1 >>
AKey(el) == CASE el[1] = "c" -> S_class
              [] el[1] = "i" -> S_id
              [] el[1] = "p" -> el[2]
              [] OTHER -> NoKey

AContains(as, k) == \E i \in 1..Len(as) : AKey(as[i]) = k

(* Class values joined by single spaces, empty values ignored.             *)
AJoin(vs) == FoldLeft(LAMBDA acc, v : IF v = << >> THEN acc
                                      ELSE IF acc = << >> THEN v
                                      ELSE acc \o <<32>> \o v, << >>, vs)
AValues(as, k) == [i \in 1..Len(SelectSeq(as, LAMBDA el : AKey(el) = k)) |->
                      SelectSeq(as, LAMBDA el : AKey(el) = k)[i][3]]
(* Value of a key: <<>> if absent, << v >> otherwise.                      *)
AGet(as, k) ==
    IF k = S_class
    THEN LET v == AJoin(AValues(as, k)) IN IF v = << >> THEN << >> ELSE << v >>
    ELSE LET vs == AValues(as, k) IN IF vs = << >> THEN << >> ELSE << vs[Len(vs)] >>

(* One <<key, value>> per key, at the position of its first element.       *)
AUnique(as) ==
    FoldLeftDomain(LAMBDA acc, i :
        LET k == AKey(as[i]) IN
        IF k = NoKey \/ (\E j \in 1..(i - 1) : AKey(as[j]) = k) THEN acc
        ELSE LET vs == AValues(as, k) IN
             Append(acc, << k, IF k = S_class THEN AJoin(vs) ELSE vs[Len(vs)] >>),
        << >>, as)

(* Value with backslash escapes of ASCII punctuation resolved.             *)
RECURSIVE AUnescape(_, _)
AUnescape(v, i) ==
    IF i > Len(v) THEN << >>
    ELSE IF v[i] = 92 /\ i < Len(v) /\ v[i + 1] < 128 /\ IsPunct(v[i + 1])
         THEN << v[i + 1] >> \o AUnescape(v, i + 2)
         ELSE << v[i] >> \o AUnescape(v, i + 1)
ADisplay(v) == IF SelectInSeq(v, LAMBDA c : c = 92) = 0 THEN v ELSE AUnescape(v, 1)

(* The textual form of a set.                                               *)
AFormatEl(el) == CASE el[1] = "c" -> <<46>> \o el[3]
                   [] el[1] = "i" -> <<35>> \o el[3]
                   [] el[1] = "p" -> el[2] \o <<61, 34>> \o el[3] \o <<34>>
                   [] OTHER -> <<37>> \o el[3] \o <<37>>
AFormat(as) ==
    <<123>> \o FoldLeftDomain(LAMBDA acc, i : acc \o (IF i = 1 THEN << >> ELSE <<32>>) \o AFormatEl(as[i]),
                              << >>, as) \o <<125>>
=============================================================================
