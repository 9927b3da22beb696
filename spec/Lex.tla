-------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* Tokens of inline text.  A lexer is a record                              *)
(*   [p, e, esc, vb, nx]                                                    *)
(* over the line src[p..e): p is the offset after the buffered token (if    *)
(* any), esc that the next character is escaped, vb that escapes are off    *)
(* (verbatim), nx the buffered token, << >> or << kind, len >>.             *)
(* Token kinds are strings:                                                 *)
(*   "Text" "NL" "Nbsp" "Hard" "Esc"                                        *)
(*   "Ob" "Op" "{" "{*" "{^" "{=" "{-" "{+" "{~" "{_" "{'" "{q"   openers   *)
(*   "Cb" "Cp" "}" "*}" "^}" "=}" "-}" "+}" "~}" "_}" "'}" "q}"   closers   *)
(*   "*" "^" "![" "<" "|" "'" "q" "~" "_" ":"                     symbols   *)
(*   "`" "--" ".."                                                sequences *)
(***************************************************************************)
EXTENDS Bytes

SpecialSet == {92, 91, 93, 40, 41, 123, 125, 42, 94, 61, 43, 126, 95, 39, 34,
               45, 33, 60, 124, 58, 96, 46, 10}
SpecialT == Table(SpecialSet)

OpenBrace == [c \in {42, 94, 61, 45, 43, 126, 95, 39, 34} |->
    CASE c = 42 -> "{*" [] c = 94 -> "{^" [] c = 61 -> "{=" [] c = 45 -> "{-"
      [] c = 43 -> "{+" [] c = 126 -> "{~" [] c = 95 -> "{_" [] c = 39 -> "{'"
      [] OTHER -> "{q"]
CloseBrace == [c \in {42, 94, 61, 43, 126, 95, 39, 34} |->
    CASE c = 42 -> "*}" [] c = 94 -> "^}" [] c = 61 -> "=}" [] c = 43 -> "+}"
      [] c = 126 -> "~}" [] c = 95 -> "_}" [] c = 39 -> "'}" [] OTHER -> "q}"]
PlainSym == [c \in {42, 94, 61, 43, 126, 95, 39, 34} |->
    CASE c = 42 -> "*" [] c = 94 -> "^" [] c = 61 -> "Text" [] c = 43 -> "Text"
      [] c = 126 -> "~" [] c = 95 -> "_" [] c = 39 -> "'" [] OTHER -> "q"]
Single == [c \in {91, 93, 40, 41, 125, 60, 124, 58} |->
    CASE c = 91 -> "Ob" [] c = 93 -> "Cb" [] c = 40 -> "Op" [] c = 41 -> "Cp"
      [] c = 125 -> "}" [] c = 60 -> "<" [] c = 124 -> "|" [] OTHER -> ":"]

NewLexer(p, e) == [p |-> p, e |-> e, esc |-> FALSE, vb |-> FALSE, nx |-> << >>]

(* Scan one token at p.  Result << kind, q, esc' >> with q the offset after *)
(* it; kind "" at the end of the line.                                      *)
Token1(src, p, e, esc, vb) ==
    IF p >= e THEN << "", p, FALSE >>
    ELSE
    LET c == At(src, p) IN
    IF esc THEN
        IF c = 10 THEN << "Hard", p + 1, FALSE >>
        ELSE IF c = 9 \/ c = 32
        THEN LET q == Find(src, p + 1, e, LAMBDA x : x # 32 /\ x # 9) IN
             IF q < e /\ At(src, q) = 10 THEN << "Hard", q + 1, FALSE >>
             ELSE << IF c = 32 THEN "Nbsp" ELSE "Text", p + 1, FALSE >>
        ELSE << "Text", p + 1, FALSE >>
    ELSE IF ~SpecialT[c + 1]
    THEN << "Text", Find(src, p, e, LAMBDA x : SpecialT[x + 1]), FALSE >>
    ELSE
    LET q == p + 1
        d == IF q < e THEN At(src, q) ELSE 0 - 1 IN
    CASE c = 10 -> << "NL", q, FALSE >>
      [] c = 92 -> IF d >= 0 /\ (IsWs(d) \/ IsPunct(d))
                   THEN << "Esc", q, ~vb >> ELSE << "Text", q, FALSE >>
      [] c = 123 -> IF d \in DOMAIN OpenBrace THEN << OpenBrace[d], q + 1, FALSE >>
                    ELSE << "{", q, FALSE >>
      [] c \in DOMAIN Single -> << Single[c], q, FALSE >>
      [] c \in DOMAIN PlainSym -> IF d = 125 THEN << CloseBrace[c], q + 1, FALSE >>
                                  ELSE << PlainSym[c], q, FALSE >>
      [] c = 45 -> IF d = 125 THEN << "-}", q + 1, FALSE >>
                   ELSE LET f == SkipByte(src, q, e, 45) IN    \* run of hyphens p..f
                        \* the last hyphen is left for a closing brace
                        << "--", IF f > q /\ StartsB(src, f, e, 125) THEN f - 1 ELSE f, FALSE >>
      [] c = 33 -> IF d = 91 THEN << "![", q + 1, FALSE >> ELSE << "Text", q, FALSE >>
      [] c = 96 -> << "`", SkipByte(src, q, e, 96), FALSE >>
      [] c = 46 -> << "..", SkipByte(src, q, e, 46), FALSE >>
      [] OTHER -> << "Text", q, FALSE >>

(* Absorb following text tokens; the first other token is buffered.        *)
RECURSIVE MergeText(_, _, _, _, _)
MergeText(src, p, q, lx, esc) ==
    LET t == Token1(src, q, lx.e, esc, lx.vb) IN
    IF t[1] = "Text" THEN MergeText(src, p, t[2], lx, t[3])
    ELSE << "Text", q - p,
            [lx EXCEPT !.p = t[2], !.esc = t[3], !.nx = IF t[1] = "" THEN << >> ELSE << t[1], t[2] - q >>] >>

(* Next token: << kind, len, lexer' >>, kind "" at the end.                 *)
LexNext(src, lx) ==
    IF lx.nx # << >> THEN << lx.nx[1], lx.nx[2], [lx EXCEPT !.nx = << >>] >>
    ELSE LET t == Token1(src, lx.p, lx.e, lx.esc, lx.vb) IN
         IF t[1] = "Text" THEN MergeText(src, lx.p, t[2], lx, t[3])
         ELSE << t[1], t[2] - lx.p, [lx EXCEPT !.p = t[2], !.esc = t[3]] >>

(* Buffer one token (a buffered text token is not merged).                  *)
LexPeek(src, lx) ==
    IF lx.nx # << >> THEN lx
    ELSE LET t == Token1(src, lx.p, lx.e, lx.esc, lx.vb) IN
         IF t[1] = "" THEN [lx EXCEPT !.esc = FALSE]
         ELSE [lx EXCEPT !.p = t[2], !.esc = t[3], !.nx = << t[1], t[2] - lx.p >>]
PeekKind(lx) == IF lx.nx = << >> THEN "" ELSE lx.nx[1]

(* Offset of the first byte not yet consumed.                               *)
LexAhead(lx) == IF lx.nx = << >> THEN lx.p ELSE lx.p - lx.nx[2]
(* Continue n bytes further on, forgetting all flags.                       *)
LexSkip(lx, n) == NewLexer(lx.p + n, lx.e)
=============================================================================
