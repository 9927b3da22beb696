------------------------------- MODULE Markup -------------------------------
(***************************************************************************)
(* Well-formedness of HTML text as a pushdown automaton over bytes:        *)
(* balanced elements from a fixed set, void elements, quoted attributes,   *)
(* and no stray markup characters.                                         *)
(***************************************************************************)
EXTENDS Bytes

VoidNames == {B("img"), B("br"), B("hr"), B("input")}
Names == {B(s) : s \in {"p", "a", "em", "strong", "code", "pre", "span", "sub", "sup", "ins", "del",
    "mark", "ul", "ol", "li", "dl", "dt", "dd", "table", "tr", "td", "th", "caption", "section",
    "div", "blockquote"}}
Heading_(n) == Len(n) >= 2 /\ n[1] = 104 /\ \A i \in 2..Len(n) : n[i] \in DigitSet
Entities == {B("lt"), B("gt"), B("amp"), B("quot"), B("nbsp")}

EntityEnd(s, p, e) ==    \* offset after the entity starting at p, or -1
    LET q == Find(s, p, Min2(e, p + 8), LAMBDA c : c = 59) IN
    IF StartsB(s, q, e, 59) /\ Sub(s, p + 1, q) \in Entities THEN q + 1 ELSE 0 - 1

StrayT == Table({38, 60, 62})
(* Character data s[p..e): << >> or the offset of a stray character.        *)
RECURSIVE Chars(_, _, _)
Chars(s, p, e) ==
    LET q == Find(s, p, e, LAMBDA c : StrayT[c + 1]) IN
    IF q >= e THEN << >>
    ELSE IF At(s, q) = 38 /\ EntityEnd(s, q, e) > 0 THEN Chars(s, EntityEnd(s, q, e), e)
    ELSE << q >>

(* Attributes from p up to the end of the tag: << offset after, error >>.   *)
RECURSIVE TagRest(_, _)
TagRest(s, p) ==
    LET e == Len(s) IN
    IF StartsB(s, p, e, 62) THEN << p + 1, << >> >>
    ELSE IF StartsB(s, p, e, 47) /\ StartsB(s, p + 1, e, 62) THEN << p + 2, << >> >>
    ELSE IF ~StartsB(s, p, e, 32) THEN << p, << p, "tag" >> >>
    ELSE
    LET q == Find(s, p + 1, e, LAMBDA c : ~NameT[c + 1]) IN
    IF q = p + 1 \/ ~StartsB(s, q, e, 61) \/ ~StartsB(s, q + 1, e, 34)
    THEN << p, << p, "attribute" >> >>
    ELSE
    LET v == q + 2
        w == Find(s, v, e, LAMBDA c : c = 34) IN
    IF w >= e THEN << p, << v, "unterminated value" >> >>
    ELSE LET x == Chars(s, v, w) IN
         IF x # << >> THEN << p, << x[1], "value" >> >> ELSE TagRest(s, w + 1)

RECURSIVE Html_(_, _, _)
Html_(s, p, stack) ==
    LET e == Len(s)
        q == Find(s, p, e, LAMBDA c : c = 60)
        x == Chars(s, p, q) IN
    IF x # << >> THEN << x[1], "text" >>
    ELSE IF q >= e THEN IF stack = << >> THEN << >> ELSE << e, "left open" >>
    ELSE
    LET close == StartsB(s, q + 1, e, 47)
        a == IF close THEN q + 2 ELSE q + 1
        b == Find(s, a, e, LAMBDA c : ~AlnumT[c + 1])
        name == Sub(s, a, b) IN
    IF ~(name \in Names \/ name \in VoidNames \/ Heading_(name)) THEN << q, "unknown element" >>
    ELSE IF close
    THEN IF stack = << >> \/ Head(stack) # name \/ ~StartsB(s, b, e, 62) THEN << q, "unbalanced" >>
         ELSE Html_(s, b + 1, Tail(stack))
    ELSE LET t == TagRest(s, b) IN
         IF t[2] # << >> THEN t[2]
         ELSE Html_(s, t[1], IF name \in VoidNames THEN stack ELSE << name >> \o stack)

(* << >> or << offset, what is wrong >>.                                    *)
HtmlError(s) == Html_(s, 0, << >>)
=============================================================================
