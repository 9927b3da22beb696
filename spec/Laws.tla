-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws of event streams that are stated on the source text and the events *)
(* alone, without the reference semantics: what a marker looks like, which *)
(* source may be left without an event, what may not be inside what.       *)
(* Each gives << >> if it holds, and what is wrong otherwise.               *)
(***************************************************************************)
EXTENDS Attr, Stream

First(bad, what, evs) ==
    IF bad = {} THEN << >>
    ELSE LET k == CHOOSE m \in bad : \A o \in bad : m <= o IN << what, k, evs[k] >>

(* Index of the end event of each start event (0 for the others).           *)
Matching(evs) ==
    LET fin == FoldLeftDomain(LAMBDA acc, k :
            IF evs[k][1] = "S" THEN << acc[1], Append(acc[2], k) >>
            ELSE IF evs[k][1] = "E" /\ acc[2] # << >>
            THEN << [acc[1] EXCEPT ![acc[2][Len(acc[2])]] = k], SubSeq(acc[2], 1, Len(acc[2]) - 1) >>
            ELSE acc, << [k \in 1..Len(evs) |-> 0] \o << >>, << >> >>, evs) IN
    fin[1]
LineStart(src, p) == FindLast(src, 0, p, LAMBDA c : c = 10) + 1
LineEnd(src, p) == Find(src, p, Len(src), LAMBDA c : c = 10)
PrefixBytes == WsSet \cup {62}               \* what a container's prefix may consist of
(* The part of a range that lies on its last line, without a prefix that is *)
(* part of the range if it begins on a line before.                         *)
LastLine(src, s, e) ==
    LET t == TrimEnd(src, s, e)
        l == LineStart(src, t) IN
    IF l <= s THEN Sub(src, s, t)
    ELSE Sub(src, Find(src, l, t, LAMBDA c : c \notin PrefixBytes), t)
OnlyOf(b, S) == \A k \in 1..Len(b) : b[k] \in S
EndsWith(b, x) == Len(b) >= Len(x) /\ SubSeq(b, Len(b) - Len(x) + 1, Len(b)) = x
TrimB(b) == LET e == TrimEnd(b, 0, Len(b)) IN Sub(b, Min2(e, SkipWs(b, 0, e)), e)

(* --- C05: blocks and lines --------------------------------------------------- *)
TextLeaf == {"para", "head", "dt", "cell", "caption"}
(* Ends of a leaf's contents.                                               *)
Inside(evs, m, k) == << evs[k][5], evs[m[k]][4] >>
BlankLineIn(src, s, e) ==
    \E p \in s..(e - 1) : At(src, p) = 10 /\ LET q == LineEnd(src, p + 1) IN q < e /\ AllBlank(src, p + 1, q)
Fence(b) ==          \* the fence a line begins with: << character, length >>
    IF b = << >> THEN << 0, 0 >>
    ELSE << b[1], Find(b, 0, Len(b), LAMBDA c : c # b[1]) >>
Trail(b, c) == Len(b) - (FindLast(b, 0, Len(b), LAMBDA x : x # c) + 1)
BlockLaw(src, evs) ==
    LET m == Matching(evs)
        n == 1..Len(evs)
        Starts_(S) == { k \in n : evs[k][1] = "S" /\ evs[k][2][1] \in S }
        L(k) == LastLine(src, evs[k][4], evs[k][5])
        blanks == { k \in n : evs[k][1] = "bl" /\ ~AllBlank(src, evs[k][4], evs[k][5]) }
        torn == { k \in Starts_({"para", "head", "dt"}) : BlankLineIn(src, evs[k][5], evs[m[k]][4]) }
        heads == { k \in Starts_({"head"}) : Trail(L(k), 35) # evs[k][2][2] }
        quotes == { k \in Starts_({"quote"}) :
                      LET t == TrimEnd(src, evs[k][4], evs[k][5]) IN t = evs[k][4] \/ At(src, t - 1) # 62 }
        breaks == { k \in n : evs[k][1] = "tb" /\
                      LET b == SelectSeq(L(k), LAMBDA c : ~IsWs(c)) IN ~(Len(b) >= 3 /\ OnlyOf(b, {42, 45})) }
        codes == { k \in Starts_({"code", "rawb"}) :
                     LET f == Fence(TrimB(L(k))) c == TrimB(LastLine(src, evs[m[k]][4], evs[m[k]][5])) g == Fence(c) IN
                     ~(f[1] \in {96, 126} /\ f[2] >= 3
                       /\ (c = << >> \/ (g[1] = f[1] /\ g[2] >= f[2] /\ g[2] = Len(c)))) }
        divs == { k \in Starts_({"div"}) :
                     LET f == Fence(TrimB(L(k))) c == TrimB(LastLine(src, evs[m[k]][4], evs[m[k]][5])) g == Fence(c) IN
                     ~(f[1] = 58 /\ f[2] >= 3 /\ (c = << >> \/ (g[1] = 58 /\ g[2] >= f[2] /\ g[2] = Len(c)))) } IN
    CASE blanks # {} -> First(blanks, "blank line that is not blank", evs)
      [] torn # {} -> First(torn, "paragraph across a blank line", evs)
      [] heads # {} -> First(heads, "level of heading", evs)
      [] quotes # {} -> First(quotes, "block quote without marker", evs)
      [] breaks # {} -> First(breaks, "thematic break", evs)
      [] codes # {} -> First(codes, "code fence", evs)
      [] divs # {} -> First(divs, "div fence", evs)
      [] OTHER -> << >>
(* Source that no event covers: prefixes of containers, empty attribute     *)
(* groups, separator rows, the markers of continued headings, and the       *)
(* whitespace around and inside of all these.                                *)
IsSeparator(b) == LET x == SelectSeq(b, LAMBDA c : c \notin PrefixBytes) IN
                  x = << 124 >> \/ (OnlyOf(x, {124, 58, 45}) /\ \E k \in 1..Len(x) : x[k] = 45)
CoverLaw(src, evs) ==
    LET covered == UNION { evs[k][4]..(evs[k][5] - 1) : k \in 1..Len(evs) }
        bare == { p \in 0..(Len(src) - 1) : p \notin covered
                     /\ At(src, p) \notin PrefixBytes \cup {123, 125, 35} }
        \* separator rows, the caption marker, cells that run into the end of
        \* their line inside verbatim text
        Excused(p) ==
            LET e == LineEnd(src, p) l == LineStart(src, p) IN
            \/ OnlyOf(Sub(src, p, e), PrefixBytes \cup {124, 58, 45})
            \/ At(src, p) = 94 /\ (p + 1 = e \/ IsWs(At(src, p + 1)))
            \/ \E q \in l..p : At(src, q) = 124 /\ \E t \in l..(e - 1) : At(src, t) = 96
        lost == { p \in bare : ~Excused(p) } IN
    IF lost = {} THEN << >> ELSE << "source without an event", CHOOSE p \in lost : \A q \in lost : p <= q >>

(* --- C06: lists ---------------------------------------------------------------- *)
(* The marker of an item agrees with the kind of the list.                  *)
Parents(evs) ==       \* index of the container each event is in
    FoldLeftDomain(LAMBDA acc, k :
        LET d == Len(acc[2]) IN
        IF evs[k][1] = "S" THEN << Append(acc[1], IF d = 0 THEN 0 ELSE acc[2][d]), Append(acc[2], k) >>
        ELSE IF evs[k][1] = "E" /\ d > 0
        THEN << Append(acc[1], IF d = 1 THEN 0 ELSE acc[2][d - 1]), SubSeq(acc[2], 1, d - 1) >>
        ELSE << Append(acc[1], IF d = 0 THEN 0 ELSE acc[2][d]), acc[2] >>, << << >>, << >> >>, evs)[1]
Roman == B("ivxlcdmIVXLCDM")
NumberMarker(b, c) ==     \* b without blanks: is it a marker of list c?
    LET open == b # << >> /\ b[1] = 40
        last == IF b = << >> THEN 0 ELSE b[Len(b)]
        num == SubSeq(b, IF open THEN 2 ELSE 1, Len(b) - 1) IN
    /\ num # << >>
    /\ CASE c[5] = "." -> ~open /\ last = 46 [] c[5] = "p" -> ~open /\ last = 41 [] OTHER -> open /\ last = 41
    /\ OnlyOf(num, CASE c[3] = "dec" -> DigitSet [] c[3] \in {"al", "rl"} -> LowerSet [] OTHER -> UpperSet)
    /\ c[3] \in {"al", "au"} => Len(num) = 1
    /\ c[3] \in {"rl", "ru"} => OnlyOf(num, { Roman[k] : k \in 1..Len(Roman) })
ListLaw(src, evs) ==
    LET par == Parents(evs)
        m == Matching(evs)
        \* the marker is the last word of the range (two for a task)
        Bad(k) ==
            LET c == evs[par[k]][2]
                b == TrimB(LastLine(src, evs[k][4], evs[k][5])) IN
            CASE evs[k][2][1] = "task" ->
                    LET w == TrimB(Sub(b, 0, Max2(0, Len(b) - 3))) box == SubSeq(b, Max2(1, Len(b) - 2), Len(b)) IN
                    ~(/\ EndsWith(w, << c[3] >>) /\ Len(box) = 3 /\ box[1] = 91 /\ box[3] = 93
                      /\ IF evs[k][2][2] THEN box[2] \in {120, 88} ELSE box[2] = 32)
              [] c[2] = "u" -> ~EndsWith(b, << c[3] >>)
              [] OTHER -> LET w == FindLast(b, 0, Len(b), LAMBDA x : IsWs(x) \/ x = 62) IN
                          ~NumberMarker(Sub(b, w + 1, Len(b)), c)
        items == { k \in 1..Len(evs) : evs[k][1] = "S" /\ evs[k][2][1] \in {"li", "task"} /\ Bad(k) }
        \* a list is loose if a blank line in one of its items is followed by
        \* another block there, or ends it and another item follows
        Next_(k) == k + 1 + SelectInSeq(SubSeq(evs, k + 1, Len(evs)), LAMBDA v : v[1] # "bl") - 1
        Grand(k) == IF par[k] = 0 THEN 0 ELSE par[par[k]]
        Loose(i) == \E k \in (i + 1)..(m[i] - 1) :
                       /\ evs[k][1] = "bl" /\ Grand(k) = i
                       /\ LET j == Next_(k) IN
                          IF evs[j][1] = "E" THEN m[par[k]] = j /\ j + 1 # m[i]
                          ELSE ~(evs[j][1] = "S" /\ evs[j][2][1] \in {"list", "dl"})
        tights == { i \in 1..Len(evs) : evs[i][1] = "S" /\ evs[i][2][1] = "list"
                      /\ evs[i][2][Len(evs[i][2])] /\ Loose(i) } IN
    CASE items # {} -> First(items, "marker of another kind of list", evs)
      [] tights # {} -> First(tights, "tight list with a blank line", evs)
      [] OTHER -> << >>

(* --- C10: tables --------------------------------------------------------------- *)
TableLaw(src, evs) ==
    LET m == Matching(evs)
        rows == SelectSeq([k \in 1..Len(evs) |-> k] \o << >>, LAMBDA k : evs[k][1] = "S" /\ evs[k][2][1] = "row")
        Cells(k) == SelectSeq(SubSeq(evs, k, m[k]), LAMBDA e : e[1] = "S" /\ e[2][1] = "cell")
        Line(k) == LineStart(src, evs[k][4] + Min2(evs[k][5] - evs[k][4], SkipWs(src, evs[k][4], Len(src)) - evs[k][4]))
        Next_(k) == LineEnd(src, evs[m[k]][4]) + 1
        heads == { a \in 1..Len(rows) : LET k == rows[a] IN
                     evs[k][2][2] /\ ~IsSeparator(Sub(src, Next_(k), LineEnd(src, Next_(k)))) }
        aligned == { a \in 2..Len(rows) :
            LET j == rows[a - 1] k == rows[a] x == Cells(j) y == Cells(k) IN
            /\ evs[m[j] + 1] = evs[k]             \* same table
            /\ ~evs[k][2][2] /\ Next_(j) = LineStart(src, evs[k][4])     \* on the next line
            /\ \E c \in 1..Min2(Len(x), Len(y)) : x[c][2][2] # y[c][2][2] }
        padded == { k \in 1..Len(evs) : evs[k][1] = "S" /\ evs[k][2][1] = "cell" /\ m[k] > k + 1
                      /\ \A h \in evs[k][5]..(evs[m[k]][4] - 1) : At(src, h) # 123
                      /\ LET p == evs[k + 1][4] q == evs[m[k] - 1][5] IN
                         p < q /\ ((IsWs(At(src, p)) /\ evs[k + 1][1] = "str")
                                   \/ (IsWs(At(src, q - 1)) /\ evs[m[k] - 1][1] = "str")) } IN
    CASE heads # {} -> << "head row without separator", rows[CHOOSE a \in heads : TRUE] >>
      [] aligned # {} -> << "alignment changes without separator", rows[CHOOSE a \in aligned : TRUE] >>
      [] padded # {} -> First(padded, "blanks in a cell", evs)
      [] OTHER -> << >>

(* --- C11: literal text --------------------------------------------------------- *)
LiteralLaw(src, evs) ==
    LET m == Matching(evs)
        Lit(k) == evs[k][1] = "S" /\ evs[k][2][1] \in {"code", "rawb", "verb", "imath", "dmath", "rawi"}
        Covered(k) == UNION { evs[j][4]..(evs[j][5] - 1) : j \in (k + 1)..(m[k] - 1) }
        bad == { k \in 1..Len(evs) : Lit(k) /\
                   (\/ \E j \in (k + 1)..(m[k] - 1) : evs[j][1] # "str"
                    \/ \E p \in (evs[k][5]..(evs[m[k]][4] - 1)) \ Covered(k) : At(src, p) \notin PrefixBytes \cup {35}) } IN
    First(bad, "literal text is not the source", evs)

(* --- C12: delimiters ----------------------------------------------------------- *)
MarkOf == [em |-> 95, strong |-> 42, sup |-> 94, sub |-> 126, ins |-> 43, del |-> 45, mark |-> 61]
Ticks(b, p) == Find(b, p, Len(b), LAMBDA c : c # 96) - p
(* Length of the closer proper, of the text c that ends an element begun by *)
(* o; -1 if these do not belong together.                                    *)
CloserLength(x, o, c) ==
    LET d == MarkOf[x[1]] IN
    CASE x[1] \in DOMAIN MarkOf ->
            IF o = << 123, d >> THEN (IF HasPrefix(c, 0, Len(c), << d, 125 >>) THEN 2 ELSE 0 - 1)
            ELSE IF o = << d >> /\ x[1] \notin {"ins", "del", "mark"}
            THEN (IF HasPrefix(c, 0, Len(c), << d >>) THEN 1 ELSE 0 - 1)
            ELSE 0 - 1
      [] x[1] \in {"verb", "rawi"} ->
            LET s == IF x[1] = "rawi" THEN Min2(2, Find(o, 0, Len(o), LAMBDA b : b # 36)) ELSE 0
                t == Ticks(o, s) IN
            IF t = 0 \/ t + s # Len(o) THEN 0 - 1
            ELSE IF c = << >> THEN 0                    \* closed by the end of the leaf
            ELSE IF Ticks(c, 0) # t THEN 0 - 1
            ELSE IF x[1] = "verb" THEN t
            ELSE LET f == << 123, 61 >> \o x[2] \o << 125 >> IN
                 IF HasPrefix(c, t, Len(c), f) THEN t + Len(f) ELSE 0 - 1
      [] x[1] \in {"imath", "dmath"} ->
            LET s == IF x[1] = "imath" THEN 1 ELSE 2 t == Ticks(o, s) IN
            IF t = 0 \/ t + s # Len(o) \/ Sub(o, 0, s) # (IF s = 1 THEN << 36 >> ELSE << 36, 36 >>) THEN 0 - 1
            ELSE IF c = << >> THEN 0
            ELSE IF Ticks(c, 0) = t THEN t ELSE 0 - 1
      [] x[1] = "span" -> IF o = << >> THEN 0 ELSE IF o = << 91 >> /\ HasPrefix(c, 0, Len(c), << 93 >>) THEN 1 ELSE 0 - 1
      [] x[1] \in {"link", "img"} ->
            IF x[3] \in {"auto", "email"}
            THEN IF o = << 60 >> /\ HasPrefix(c, 0, Len(c), << 62 >>) THEN 1 ELSE 0 - 1
            ELSE IF o # (IF x[1] = "img" THEN << 33, 91 >> ELSE << 91 >>) THEN 0 - 1
            ELSE IF ~HasPrefix(c, 0, Len(c), << 93, IF x[3] = "inline" THEN 40 ELSE 91 >>) THEN 0 - 1
            ELSE LET q == Find(c, 2, Len(c), LAMBDA b : b = (IF x[3] = "inline" THEN 41 ELSE 93)) IN
                 IF q < Len(c) THEN q + 1 ELSE 0 - 1
      [] OTHER -> 0 - 1
Elements(evs) == { k \in 1..Len(evs) : evs[k][1] = "S" /\ evs[k][2][1] \in Inline_ }
DelimiterLaw(src, evs) ==
    LET m == Matching(evs)
        O(k) == Sub(src, evs[k][4], evs[k][5])
        C(k) == Sub(src, evs[m[k]][4], evs[m[k]][5])
        els == Elements(evs)
        unequal == { k \in els : CloserLength(evs[k][2], O(k), C(k)) < 0 }
        bare == { k \in els : evs[k][2][1] \in DOMAIN MarkOf /\ Len(O(k)) = 1 }
        spaced == { k \in bare : IsWs(At(src, evs[k][5])) \/ IsWs(At(src, evs[m[k]][4] - 1)) }
        void == { k \in els : evs[k][2][1] \in DOMAIN MarkOf /\ evs[k][5] = evs[m[k]][4] }
        \* an element contains no unescaped closer of its own kind as text
        odd(p) == LET q == FindLast(src, 0, p, LAMBDA c : c # 92) IN (p - 1 - q) % 2 = 1
        escaped == { k \in els : evs[k][2][1] # "rawi" /\ O(k) # << >> /\ evs[k - 1][1] = "esc" /\ evs[k - 1][5] = evs[k][4] } IN
    CASE unequal # {} -> First(unequal, "delimiters do not match", evs)
      [] spaced # {} -> First(spaced, "whitespace inside a delimiter", evs)
      [] void # {} -> First(void, "empty element", evs)
      [] escaped # {} -> First(escaped, "escaped delimiter", evs)
      [] OTHER -> << >>

(* --- C16: attributes ------------------------------------------------------------- *)
(* Elements of the groups that a block's opening range begins with: groups, *)
(* and the prefixes of containers between them.  << ok, elements >>.         *)
RECURSIVE LeadingGroups(_, _, _, _)
LeadingGroups(src, p, e, acc) ==
    IF p >= e THEN << TRUE, acc >>
    ELSE IF At(src, p) \in PrefixBytes THEN LeadingGroups(src, p + 1, e, acc)
    ELSE IF At(src, p) # 123 THEN << TRUE, acc >>
    ELSE LET r == AFeed(src, p, e, ABuilder0) IN
         IF r.b.st # "Done" THEN << FALSE, acc >>
         ELSE LeadingGroups(src, r.p, e, acc \o r.b.as)
WrittenLaw(src, evs) ==
    LET m == Matching(evs)
        els == Elements(evs)
        InlineBad(k) ==
            LET c == Sub(src, evs[m[k]][4], evs[m[k]][5])
                n == CloserLength(evs[k][2], Sub(src, evs[k][4], evs[k][5]), c)
                tail == Sub(c, n, Len(c))
                own == IF tail = << >> THEN [ok |-> TRUE, as |-> << >>] ELSE AttrTryFrom(tail)
                as == evs[k][3] IN
            IF n < 0 \/ ~own.ok THEN FALSE
            ELSE IF evs[k][2][1] \in {"link", "img"} /\ evs[k][2][3] = "ref"
            THEN ~EndsWith(as, own.as)
            ELSE as # own.as
        inl == { k \in els : (\A p \in evs[m[k]][4]..(evs[m[k]][5] - 1) : At(src, p) # 10) /\ InlineBad(k) }
        blk == { k \in 1..Len(evs) : ((evs[k][1] = "S" /\ evs[k][2][1] \notin Inline_) \/ evs[k][1] = "tb")
                   /\ LET g == LeadingGroups(src, evs[k][4], evs[k][5], << >>) IN g[1] /\ g[2] # evs[k][3] }
        none == { k \in 1..Len(evs) : evs[k][1] \notin {"S", "tb", "att"} /\ evs[k][3] # << >> } IN
    CASE inl # {} -> First(inl, "attributes not as written after the element", evs)
      [] blk # {} -> First(blk, "attributes not as written before the block", evs)
      [] none # {} -> First(none, "attributes on another event", evs)
      [] OTHER -> << >>

(* --- C13: plain text ------------------------------------------------------------ *)
(* Text outside of literal elements has nothing left that is to be replaced: *)
(* quotes, dots, hyphens, line ends, backslashes before punctuation; except   *)
(* for the character that is escaped, at its start.                          *)
OpaqueTags == {"code", "rawb", "linkdef", "verb", "imath", "dmath", "rawi"}
PlainLaw(src, evs) ==
    LET deep == FoldLeftDomain(LAMBDA acc, k :
                    LET e == evs[k]
                        o == e[1] \in {"S", "E"} /\ (e[2][1] \in OpaqueTags
                                                   \/ (e[2][1] = "link" /\ e[2][3] \in {"auto", "email"}))
                        n == IF ~o THEN acc[2] ELSE IF e[1] = "S" THEN acc[2] + 1 ELSE acc[2] - 1 IN
                    << IF e[1] = "str" /\ n = 0 THEN Append(acc[1], k) ELSE acc[1], n >>, << << >>, 0 >>, evs)[1]
        Left(k) ==
            LET b == evs[k][2][1]
                s == IF \E j \in Max2(1, k - 3)..(k - 1) : evs[j][1] = "esc" /\ evs[j][5] = evs[k][4] THEN 1 ELSE 0 IN
            \E q \in s..(Len(b) - 1) :
                \/ At(b, q) \in {34, 39, 10}
                \/ HasPrefix(b, q, Len(b), << 46, 46, 46 >>) 
                \/ /\ HasPrefix(b, q, Len(b), << 45, 45 >>)           \* but not {-- and --}
                   /\ LET g == evs[k][4] + FindLast(b, 0, q, LAMBDA c : c # 45) IN g < 0 \/ At(src, g) # 123
                   /\ LET f == Find(b, q, Len(b), LAMBDA c : c # 45) IN f = Len(b) \/ At(b, f) # 125
                \/ At(b, q) = 92 /\ q + 1 < Len(b) /\ (IsPunct(At(b, q + 1)) \/ IsWs(At(b, q + 1)))
        bad == { a \in 1..Len(deep) : Left(deep[a]) } IN
    IF bad = {} THEN << >> ELSE LET a == CHOOSE a \in bad : \A c \in bad : a <= c IN << "plain text", evs[deep[a]] >>

AllLaws(src, evs) ==
    LET r == << BlockLaw(src, evs), CoverLaw(src, evs), ListLaw(src, evs), TableLaw(src, evs),
                LiteralLaw(src, evs), DelimiterLaw(src, evs), WrittenLaw(src, evs),
                PlainLaw(src, evs) >>
        n == SelectInSeq(r, LAMBDA x : x # << >>) IN
    IF n = 0 THEN << >> ELSE r[n]
=============================================================================
