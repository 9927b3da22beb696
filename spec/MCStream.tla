------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* Generation of event streams as a caller may build them: every stream    *)
(* the content model of Stream admits, over a palette of containers,       *)
(* atoms and attributes.  At most LIMIT events are opened before closing.  *)
(* Complete streams are written out, to be rendered by the implementation. *)
(***************************************************************************)
EXTENDS Stream, Markup, Json, IOUtils

R == INSTANCE Html
Q == INSTANCE Kinds

Limit == atoi(IOEnv.LIMIT)
MaxDepth == atoi(IOEnv.NESTING)

Hot == B("a<\"&>'")
AttrSets == << << >>, << >>, << >>,
    << << "c", << >>, B("k") >>, << "i", << >>, B("own") >> >>,
    << << "p", B("t"), Hot >>, << "x", << >>, B("no") >>, << "c", << >>, B("l") >>, << "c", << >>, B("m") >> >>,
    << << "p", B("q"), B("x\\\"y\\z") >>, << "p", B("id"), B("late") >> >>,
    << << "p", B("class"), << >> >> >> >>
Palette == {
    << "quote" >>, << "list", "u", 45, TRUE >>, << "list", "u", 42, FALSE >>, << "list", "t", 43, TRUE >>, << "list", "t", 45, FALSE >>,
    << "list", "o", "dec", B("1"), ".", TRUE >>, << "list", "o", "al", B("3"), "p", FALSE >>,
    << "list", "o", "au", B("0"), "pp", TRUE >>, << "list", "o", "rl", B("10"), ".", FALSE >>,
    << "list", "o", "ru", B("1"), "p", TRUE >>,
    << "li" >>, << "task", TRUE >>, << "task", FALSE >>, << "dl" >>, << "dd" >>, << "dt" >>,
    << "fn", B("a") >>, << "fn", B("b") >>, << "table" >>, << "row", TRUE >>, << "row", FALSE >>, << "caption" >>,
    << "cell", "n", TRUE >>, << "cell", "l", FALSE >>, << "cell", "r", TRUE >>, << "cell", "c", FALSE >>,
    << "section", B("s") >>, << "section", Hot >>, << "div", << >> >>, << "div", B("note") >>, << "para" >>,
    << "head", 1, TRUE, B("s") >>, << "head", 2, FALSE, Hot >>, << "head", 7, FALSE, B("h") >>,
    << "code", << >> >>, << "code", Hot >>, << "rawb", B("html") >>, << "rawb", B("tex") >>, << "linkdef", B("x") >>,
    << "verb" >>, << "imath" >>, << "dmath" >>, << "rawi", B("html") >>, << "rawi", B("HTML") >>,
    << "span" >>, << "sub" >>, << "sup" >>, << "ins" >>, << "del" >>, << "em" >>, << "strong" >>, << "mark" >>,
    << "link", Hot, "inline" >>, << "link", << >>, "inline" >>, << "link", B("u"), "ref" >>, << "link", B("u"), "unres" >>,
    << "link", B("m@n"), "email" >>, << "link", B("u:v"), "auto" >>,
    << "img", Hot, "inline" >>, << "img", << >>, "ref" >>, << "img", B("w"), "unres" >> }
Kids(p) == { c \in Palette : MayStart(p, c, 0) \/ MayStart(p, c, 1) }
PaletteSeq == SetToSeq(Palette)
Atoms == << << "str", << Hot >> >>, << "str", << B("x") >> >>, << "str", << << >> >> >>, << "fnref", << B("a") >> >>, << "fnref", << B("b") >> >>,
    << "fnref", << B("c<") >> >>, << "sym", << B("s") >> >>, << "lsq", << >> >>, << "rsq", << >> >>, << "ldq", << >> >>,
    << "rdq", << >> >>, << "ell", << >> >>, << "end", << >> >>, << "emd", << >> >>, << "nbsp", << >> >>,
    << "sb", << >> >>, << "hb", << >> >>, << "esc", << >> >>, << "att", << >> >>, << "bl", << >> >>, << "tb", << >> >> >>

VARIABLES evs, stack             \* stack of << container, children so far >>
Doc == << "doc" >>
Init == evs = << << "S", Doc, << >>, 0, 0 >> >> /\ stack = << << Doc, 0 >> >>
Top == stack[Len(stack)]
Open_ ==
    /\ stack # << >> /\ Len(evs) < Limit /\ Len(stack) < MaxDepth
    /\ \E n \in 1..Len(PaletteSeq), a \in 1..Len(AttrSets) :
          /\ MayStart(Top[1], PaletteSeq[n], Top[2])
          /\ evs' = Append(evs, << "S", PaletteSeq[n], AttrSets[a], 0, 0 >>)
          /\ stack' = Append([stack EXCEPT ![Len(stack)][2] = @ + 1], << PaletteSeq[n], 0 >>)
Atom_ ==
    /\ stack # << >> /\ Len(evs) < Limit
    /\ \E n \in 1..Len(Atoms), a \in {1, 5} :
          /\ MayOccur(Top[1], Atoms[n][1])
          /\ a = 1 \/ Atoms[n][1] \in {"tb", "att"}
          /\ evs' = Append(evs, << Atoms[n][1], Atoms[n][2], AttrSets[a], 0, 0 >>)
    /\ UNCHANGED stack
Close ==
    /\ stack # << >>
    /\ Len(stack) > 1 \/ Len(evs) >= Limit \div 2
    /\ evs' = Append(evs, << "E", Top[1], << >>, 0, 0 >>)
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Next == Open_ \/ Atom_ \/ Close
Spec == Init /\ [][Next]_<< evs, stack >>

(* What is generated is what the acceptor accepts; and the specified        *)
(* renderer ends every such stream in its initial state, with well-formed   *)
(* output unless raw HTML was copied.                                       *)
Complete == stack = << >>
Accepted == Complete => NestingError(evs) = << >>
Raw == \E k \in 1..Len(evs) : evs[k][1] = "S" /\ evs[k][2][1] \in {"rawb", "rawi"} /\ evs[k][2][2] = B("html")
Rendered == Complete =>
    LET r == FoldLeft(R!RenderStep, R!Render0([min |-> TRUE, ind |-> << >>, lvl |-> 0]), evs) IN
    /\ r.depth = 0 /\ r.raw = "" /\ r.alt = 0 /\ r.tight = << >> /\ ~r.ign /\ r.open = << >>
    /\ r.num = Len(r.refs)
    /\ Raw \/ HtmlError(r.out) = << >>
Placed == Complete => Q!ClassError(evs, Q!Classified(evs)) = << >>
Emit == ~Complete \/ PrintT("EVS " \o ToJson(evs))
=============================================================================
