-------------------------------- MODULE Kinds --------------------------------
(***************************************************************************)
(* What the public classifications say of the elements of a stream, and the *)
(* conversions of list bullets.  The classification of a container is       *)
(* << block, holds blocks >>.                                               *)
(***************************************************************************)
EXTENDS Html

KindOk == << >>
Class(x) == << IsBlock(x), IsBlockContainer(x) >>
(* The classifications agree with where elements occur: blocks occur exactly *)
(* in the document and in what holds blocks; text never does.  flags[i] is   *)
(* the classification given for event i, << >> for an atom.                  *)
BetweenBlocks == {"bl", "tb", "att"}
PlaceError(evs, flags) ==
    FoldLeftDomain(LAMBDA acc, i :
        LET stack == acc[1] d == Len(stack)
            inBlocks == d > 0 /\ (stack[d][1] = << "doc" >> \/ stack[d][2][2]) IN
        IF acc[2] # KindOk THEN acc
        ELSE IF evs[i][1] = "S"
        THEN << Append(stack, << evs[i][2], flags[i] >>),
                IF flags[i][2] /\ ~flags[i][1] THEN << i, "holds blocks but is no block" >>
                ELSE IF evs[i][2] # << "doc" >> /\ flags[i][1] # inBlocks THEN << i, "classification against its place" >>
                ELSE KindOk >>
        ELSE IF evs[i][1] = "E"
        THEN << SubSeq(stack, 1, d - 1), IF d > 0 /\ stack[d][2] # flags[i] THEN << i, "start and end disagree" >> ELSE KindOk >>
        ELSE IF inBlocks /\ evs[i][1] \notin BetweenBlocks THEN << stack, << i, "text where blocks belong" >> >>
        ELSE IF ~inBlocks /\ evs[i][1] \in {"bl", "tb"} THEN << stack, << i, "block where text belongs" >> >>
        ELSE acc, << << >>, KindOk >>, evs)[2]
ClassError(evs, flags) ==
    LET bad == SelectInSeq([i \in 1..Len(evs) |-> evs[i][1] \in {"S", "E"} /\ flags[i] # Class(evs[i][2])] \o << >>, LAMBDA b : b) IN
    IF bad # 0 THEN << bad, evs[bad], "classified as", flags[bad], "expected", Class(evs[bad][2]) >>
    ELSE PlaceError(evs, flags)
Classified(evs) == [i \in 1..Len(evs) |-> IF evs[i][1] \in {"S", "E"} THEN Class(evs[i][2]) ELSE << >>] \o << >>

(* Bullets: the bytes that are one, each its own code point and back.       *)
Bullets == << 42, 43, 45 >>
Converted == [i \in 1..Len(Bullets) |-> << Bullets[i], Bullets[i], Bullets[i] >>] \o << >>
=============================================================================
