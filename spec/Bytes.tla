------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings.  Source text is a sequence of byte values 0..255; offsets *)
(* are 0-based and half-open as in the API of the library: the byte at     *)
(* offset p of s is s[p+1], and the slice p..q is SubSeq(s, p+1, q).       *)
(* All syntax of djot is ASCII, so UTF-8 bytes >= 128 are just "other".    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

At(s, p) == s[p + 1]
Sub(s, p, q) == SubSeq(s, p + 1, q)

Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

(* --- literals --------------------------------------------------------- *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} \cup {"\n", "\t", "\f", "\r"} |->
             IF c = "\n" THEN 10 ELSE IF c = "\t" THEN 9 ELSE IF c = "\f" THEN 12 ELSE IF c = "\r" THEN 13
             ELSE 31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]
(* B("abc") is the byte string of an ASCII literal.                        *)
B(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]] \o << >>

NL == 10
TAB == 9
SP == 32

(* --- byte classes: tables indexed by byte + 1 --------------------------- *)
Table(S) == [i \in 1..256 |-> (i - 1) \in S] \o << >>
WsSet == {9, 10, 12, 13, 32}
DigitSet == 48..57
LowerSet == 97..122
UpperSet == 65..90
AlphaSet == LowerSet \cup UpperSet
AlnumSet == AlphaSet \cup DigitSet
PunctSet == (33..47) \cup (58..64) \cup (91..96) \cup (123..126)
NameSet == AlnumSet \cup {58, 95, 45}           \* : _ -

WsT == Table(WsSet)
PunctT == Table(PunctSet)
NameT == Table(NameSet)
AlnumT == Table(AlnumSet)
DigitT == Table(DigitSet)

IsWs(c) == WsT[c + 1]
IsPunct(c) == PunctT[c + 1]
IsName(c) == NameT[c + 1]
IsAlnum(c) == AlnumT[c + 1]
IsDigit(c) == DigitT[c + 1]

(* --- scanning ----------------------------------------------------------- *)
(* First offset q in p..e whose byte satisfies Test, or e if there is none. *)
Find(s, p, e, Test(_)) ==
    IF p >= e THEN e
    ELSE LET i == SelectInSubSeq(s, p + 1, e, Test) IN IF i = 0 THEN e ELSE i - 1

(* Last offset q in p..e-1 whose byte satisfies Test, or -1.               *)
FindLast(s, p, e, Test(_)) ==
    IF p >= e THEN 0 - 1 ELSE SelectLastInSubSeq(s, p + 1, e, Test) - 1

SkipWs(s, p, e) == Find(s, p, e, LAMBDA c : ~WsT[c + 1])
SkipWsNotNl(s, p, e) == Find(s, p, e, LAMBDA c : ~WsT[c + 1] \/ c = 10)
SkipByte(s, p, e, b) == Find(s, p, e, LAMBDA c : c # b)
(* End of the slice p..e without trailing whitespace (p if all blank).     *)
TrimEnd(s, p, e) ==
    IF p >= e THEN p
    ELSE LET i == FindLast(s, p, e, LAMBDA c : ~WsT[c + 1]) IN IF i < p THEN p ELSE i + 1
AllBlank(s, p, e) == SkipWs(s, p, e) >= e
(* Does the slice p..e start with byte b?                                  *)
StartsB(s, p, e, b) == p < e /\ At(s, p) = b
HasPrefix(s, p, e, lit) == e - p >= Len(lit) /\ Sub(s, p, p + Len(lit)) = lit

(* --- decimal numerals as byte strings ----------------------------------- *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN << 48 + n >> ELSE Append(Dec(n \div 10), 48 + (n % 10))
(* Canonical form of a digit string: leading zeros removed.                *)
StripZeros(ds) ==
    LET i == SelectInSeq(ds, LAMBDA c : c # 48) IN
    IF i = 0 THEN << 48 >> ELSE SubSeq(ds, i, Len(ds))

(* --- text order (lexicographic, bytewise) -------------------------------- *)
RECURSIVE LexLe(_, _)
LexLe(a, b) ==
    IF a = << >> THEN TRUE
    ELSE IF b = << >> THEN FALSE
    ELSE IF a[1] # b[1] THEN a[1] < b[1]
    ELSE LexLe(Tail(a), Tail(b))

(* Concatenation of a sequence of byte strings.                            *)
Cat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, << >>, ss)
=============================================================================
