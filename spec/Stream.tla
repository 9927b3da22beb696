------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The public event stream as a pushdown language: which element may occur *)
(* inside which, and a generator of well-nested streams.                   *)
(***************************************************************************)
EXTENDS Bytes

Flow == {"quote", "list", "dl", "fn", "table", "div", "para", "head", "code", "rawb", "linkdef"}
Inline_ == {"span", "link", "img", "verb", "imath", "dmath", "rawi", "sub", "sup", "ins", "del",
            "em", "strong", "mark"}
InlineAtoms == {"str", "fnref", "sym", "lsq", "rsq", "ldq", "rdq", "ell", "end", "emd", "nbsp",
                "sb", "hb", "esc", "att"}
FlowParents == {"doc", "section", "quote", "li", "task", "dd", "fn", "div"}
TextParents == {"para", "head", "dt", "cell", "caption"}
LiteralParents == {"code", "rawb", "linkdef", "verb", "imath", "dmath", "rawi"}
Formatting == {"span", "sub", "sup", "ins", "del", "em", "strong", "mark", "img", "link"}

IsAutolink(c) == c[1] = "link" /\ c[3] \in {"auto", "email"}

(* May container c start as child number n (from 0) of container p?         *)
MayStart(p, c, n) ==
    CASE p[1] \in FlowParents ->
            c[1] \in Flow \/ (c[1] = "section" /\ p[1] \in {"doc", "section"})
      [] p[1] = "list" -> c[1] = (IF p[2] = "t" THEN "task" ELSE "li")
      [] p[1] = "dl" -> c[1] \in {"dt", "dd"}
      [] p[1] = "table" -> c[1] = "row" \/ (c[1] = "caption" /\ n = 0)
      [] p[1] = "row" -> c[1] = "cell" /\ c[3] = p[2]
      [] p[1] \in TextParents -> c[1] \in Inline_
      [] p[1] \in Formatting -> c[1] \in Inline_ /\ ~IsAutolink(p)
      [] OTHER -> FALSE
(* May an event that is not a container occur inside container p?           *)
MayOccur(p, tag) ==
    CASE p[1] \in FlowParents -> tag \in {"bl", "tb", "att"}
      [] p[1] \in {"list", "dl"} -> tag \in {"bl", "att"}
      [] p[1] \in TextParents -> tag \in InlineAtoms
      [] p[1] \in LiteralParents \/ IsAutolink(p) -> tag = "str"
      [] p[1] \in Formatting -> tag \in InlineAtoms
      [] OTHER -> FALSE

(* --- acceptor --------------------------------------------------------------- *)
(* State << stack of << container, children so far >>, error >>; the error   *)
(* is << >> or << position, what >>.                                         *)
AcceptStep(st, e, i) ==
    LET stack == st[1] n == Len(stack) IN
    IF st[2] # << >> THEN st
    ELSE IF e[1] = "S"
    THEN IF n = 0
         THEN IF e[2] = << "doc" >> /\ i = 1 THEN << << << e[2], 0 >> >>, << >> >>
              ELSE << stack, << i, "not inside the document" >> >>
         ELSE IF ~MayStart(stack[n][1], e[2], stack[n][2])
         THEN << stack, << i, "element not allowed here" >> >>
         ELSE << Append([stack EXCEPT ![n][2] = @ + 1], << e[2], 0 >>), << >> >>
    ELSE IF n = 0 THEN << stack, << i, "event outside the document" >> >>
    ELSE IF e[1] = "E"
    THEN IF stack[n][1] = e[2] THEN << SubSeq(stack, 1, n - 1), << >> >>
         ELSE << stack, << i, "end does not match the open element" >> >>
    ELSE IF MayOccur(stack[n][1], e[1]) THEN st
    ELSE << stack, << i, "event not allowed here" >> >>

(* << >> or the first error.                                                 *)
NestingError(evs) ==
    IF evs = << >> THEN << 0, "no events" >>
    ELSE LET st == FoldLeftDomain(LAMBDA acc, i : AcceptStep(acc, evs[i], i), << << >>, << >> >>, evs) IN
         IF st[2] # << >> THEN st[2]
         ELSE IF st[1] # << >> THEN << Len(evs), "left open" >>
         ELSE << >>
=============================================================================
