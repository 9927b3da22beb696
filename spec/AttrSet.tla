------------------------------- MODULE AttrSet -------------------------------
(***************************************************************************)
(* Attribute sets as sequences of elements with the operations a caller    *)
(* builds them by, and what the queries on a set must report.               *)
(***************************************************************************)
EXTENDS Attr

Ok == << >>
(* An operation is << name, arguments >>; indices are from 0.               *)
SetStep(as, op) ==
    LET n == Len(as) IN
    CASE op[1] = "parse" -> LET r == AttrTryFrom(op[2]) IN IF r.ok THEN r.as ELSE as
      [] op[1] = "push" -> Append(as, op[2])
      [] op[1] = "insert" ->
            LET k == Min2(op[2], n) IN SubSeq(as, 1, k) \o << op[3] >> \o SubSeq(as, k + 1, n)
      [] op[1] = "remove" ->
            IF op[2] < n THEN SubSeq(as, 1, op[2]) \o SubSeq(as, op[2] + 2, n) ELSE as
      [] op[1] = "pop" -> SubSeq(as, 1, Max2(n - 1, 0))
      [] op[1] = "extend" -> as \o op[2]
      [] op[1] \in {"collect", "vec"} -> op[2]
      [] op[1] = "set" ->
            IF op[2] < n THEN [as EXCEPT ![op[2] + 1] = << @[1], @[2], op[3] >>] ELSE as
      [] op[1] = "clear" -> << >>
      [] op[1] = "rev" -> [i \in 1..n |-> as[n + 1 - i]] \o << >>
      [] OTHER -> as                                  \* clone, into, unvec

(* The key of an element, if it has one.                                    *)
KeyOf(a) == IF a[1] = "x" THEN << >> ELSE << AKey(a) >>

(* What was observed of a set: as, kkeys, disp, parts, keys, uniq, dbg.     *)
QueryErrors(r) ==
    LET Value(i) == ADisplay(r.as[i][3])
        keys == { i \in 1..Len(r.keys) :
                    r.keys[i][2] # AContains(r.as, r.keys[i][1])
                    \/ AGet(r.as, r.keys[i][1]) # (IF r.keys[i][3] = << >> THEN << >> ELSE r.keys[i][3]) }
        disp == { i \in 1..Len(r.as) : r.disp[i] # Value(i) \/ r.parts[i] # Value(i) } IN
    IF keys # {} THEN LET i == CHOOSE i \in keys : TRUE IN
                      << "lookup", r.keys[i], "expected", AContains(r.as, r.keys[i][1]), AGet(r.as, r.keys[i][1]) >>
    ELSE IF r.kkeys # [i \in 1..Len(r.as) |-> KeyOf(r.as[i])] \o << >> THEN << "keys", r.kkeys >>
    ELSE IF r.uniq # AUnique(r.as) THEN << "unique pairs", r.uniq, "expected", AUnique(r.as) >>
    ELSE IF disp # {} THEN LET i == CHOOSE i \in disp : TRUE IN
                      << "displayed value", r.disp[i], r.parts[i], "expected", Value(i) >>
    ELSE IF r.dbg # AFormat(r.as) THEN << "textual form", r.dbg, "expected", AFormat(r.as) >>
    ELSE Ok
=============================================================================
