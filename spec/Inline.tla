------------------------------- MODULE Inline -------------------------------
(***************************************************************************)
(* Inline markup of one leaf block as a state machine.                     *)
(*                                                                         *)
(* State s:                                                                *)
(*   lx       lexer over the rest of the current line                      *)
(*   ss, se   span of the token being handled                              *)
(*   ls, le   span of the current line                                     *)
(*   ah       lines not yet started, a sequence of << start, end >>        *)
(*   op       stack of potential openers [o, e, es, img]: name, index of   *)
(*            its event in ev, and for a link the event of its text's [    *)
(*   ev       events so far                                                *)
(*   vb       open verbatim << event, length, seen non-blank, keep >> or   *)
(*            << >>; keep is the number of events to keep at the closer    *)
(*            when the last non-blank token is a backtick run, else 0      *)
(*   fin      all lines are consumed                                       *)
(*                                                                         *)
(* An event is << kind, payload, attributes, start, end >> with kinds      *)
(*   "E" enter, "X" exit, "A" atom, "S" text,                              *)
(*   "T" attributes (payload <<"C">> of the following container, <<"W">>   *)
(*   of the preceding word), "M" stand-alone attributes, "P" placeholder.  *)
(* Payload of "E"/"X" is a container, of "A" the tag of the public event.  *)
(***************************************************************************)
EXTENDS Attr, Lex

IEv(k, c, x, s, e) == << k, c, x, s, e >>
IPush(s, k, c) == [s EXCEPT !.ev = Append(@, << k, c, << >>, s.ss, s.se >>)]

Inline0(lines) ==
    [lx |-> NewLexer(lines[1][1], lines[1][2]),
     ss |-> lines[1][1], se |-> lines[1][1],
     ls |-> lines[1][1], le |-> lines[1][2], all |-> lines,
     ah |-> Tail(lines), op |-> << >>, ev |-> << >>, vb |-> << >>, fin |-> FALSE]

(* --- openers --------------------------------------------------------------- *)
(* Kinds that may open, and the name of the opener.                        *)
OpenerName == [k \in {"*", "_", "^", "~", "'", "q", "![", "Ob", "{*", "{_", "{^", "{~",
                      "{=", "{-", "{+", "{'", "{q"} |->
    CASE k = "{'" -> "'" [] k = "{q" -> "q" [] OTHER -> k]
Closers == [o \in {"*", "_", "^", "~", "'", "q", "![", "Ob", "{*", "{_", "{^", "{~",
                   "{=", "{-", "{+", "rlink", "ilink"} |->
    CASE o \in {"Ob", "![", "rlink"} -> {"Cb"}
      [] o = "ilink" -> {"Cp"}
      [] o = "'" -> {"'", "'}"}
      [] o = "q" -> {"q", "q}"}
      [] o = "{*" -> {"*}"} [] o = "{_" -> {"_}"} [] o = "{^" -> {"^}"} [] o = "{~" -> {"~}"}
      [] o = "{=" -> {"=}"} [] o = "{-" -> {"-}"} [] o = "{+" -> {"+}"}
      [] OTHER -> {o}]
Bidirectional == {"*", "_", "^", "~", "'", "q"}
ContainerOf == [o \in {"*", "_", "^", "~", "{*", "{_", "{^", "{~", "{=", "{-", "{+"} |->
    CASE o \in {"*", "{*"} -> << "strong" >> [] o \in {"_", "{_"} -> << "em" >>
      [] o \in {"^", "{^"} -> << "sup" >> [] o \in {"~", "{~"} -> << "sub" >>
      [] o = "{=" -> << "mark" >> [] o = "{-" -> << "del" >> [] OTHER -> << "ins" >>]

(* Is the byte at offset p preceded by an odd number of backslashes?        *)
IsEscaped(src, p) ==
    LET i == FindLast(src, 0, p, LAMBDA c : c # 92) IN (p - 1 - i) % 2 = 1

(* --- attributes -------------------------------------------------------------- *)
(* Measure the groups starting at the current position: as many adjacent   *)
(* valid groups as there are, the last possibly continuing on later lines. *)
(* Result << end, lines >>: end of the last valid group and the number of  *)
(* further lines it reaches into; end = start if there is none.            *)
RECURSIVE MeasureGroups(_, _, _, _, _, _, _, _)
MeasureGroups(src, ah, n, p, e, st, end, vl) ==
    LET r == ARun(src, p, e, st) IN
    IF r.st = "Done"
    THEN IF StartsB(src, r.p, Len(src), 123)
         THEN MeasureGroups(src, ah, n, r.p, e, "Start", r.p, n)
         ELSE << r.p, n >>
    ELSE IF r.st = "Invalid" \/ n >= Len(ah) THEN << end, vl >>
    ELSE MeasureGroups(src, ah, n + 1, ah[n + 1][1], ah[n + 1][2], r.st, end, vl)

(* Elements of the groups at start..end which reach into vl further lines. *)
RECURSIVE FeedLines(_, _, _, _, _, _)
FeedLines(src, ah, n, vl, end, b) ==
    IF n > vl THEN b.as
    ELSE FeedLines(src, ah, n + 1, vl, end, AFeed(src, ah[n][1], Min2(end, ah[n][2]), b).b)
GroupElems(src, start, le, ah, vl, end) ==
    FeedLines(src, ah, 1, vl, end, AFeed(src, start, Min2(end, le), ABuilder0).b)

InsertEv(seq, i, x) == SubSeq(seq, 1, i - 1) \o << x >> \o SubSeq(seq, i, Len(seq))

(* Attributes at start (the next offset).  word: attach to the word before, *)
(* otherwise to the element whose placeholder is event ph.                 *)
(* Result [ok, s].                                                         *)
AheadAttrs(src, s, start, word, ph) ==
    LET m == MeasureGroups(src, s.ah, 0, start, s.le, "Start", start, 0)
        end == m[1]
        vl == m[2] IN
    IF end = start THEN [ok |-> FALSE, s |-> s]
    ELSE
    LET as == GroupElems(src, start, s.le, s.ah, vl, end)
        le == IF vl = 0 THEN s.le ELSE s.ah[vl][2]
        s1 == [s EXCEPT !.ss = start, !.se = end, !.le = le,
                        !.ls = IF vl = 0 THEN @ ELSE s.ah[vl][1],
                        !.ah = SubSeq(@, vl + 1, Len(@)),
                        !.lx = NewLexer(end, le)]
        n == Len(s1.ev) IN
    [ok |-> TRUE, s |->
     IF as = << >>
     THEN IF word \/ s1.ev[ph + 1][1] = "S" THEN s1     \* brackets stay text
          ELSE [s1 EXCEPT !.ev[n][5] = end]
     ELSE IF word
     THEN [s1 EXCEPT !.ev = @ \o << IEv("T", << "W" >>, as, start, end),
                                    IEv("M", << >>, << >>, start, end) >>]
     ELSE
     LET t == IEv("T", << "C" >>, as, start, end)
         o == s1.ev[ph + 1]
         ev1 == [s1.ev EXCEPT ![ph] = t] IN
     IF o[1] # "S" THEN [s1 EXCEPT !.ev = [ev1 EXCEPT ![n][5] = end]]
     \* a bracket pair becomes a span; a preceding ! is literal
     ELSE LET bang == o[5] - o[4] = 2 /\ Sub(src, o[4], o[5]) = << 33, 91 >>
              ev2 == [ev1 EXCEPT ![ph + 1] = IEv("E", << "span" >>, << >>, IF bang THEN o[4] + 1 ELSE o[4], o[5]),
                                 ![n] = IEv("X", << "span" >>, << >>, ev1[n][4], end)] IN
          [s1 EXCEPT !.ev = IF bang
                            THEN InsertEv(ev2, ph, IEv("S", << >>, << >>, o[4], o[4] + 1))
                            ELSE ev2]]

(* After a closed element: peek for attributes.                            *)
MaybeAttrs(src, s, word, ph) ==
    LET lx == LexPeek(src, s.lx)
        s1 == [s EXCEPT !.lx = lx] IN
    IF PeekKind(lx) = "{" THEN AheadAttrs(src, s1, s1.se, word, ph).s ELSE s1

(* --- verbatim ---------------------------------------------------------------- *)
RawStopT == Table(WsSet \cup {123, 125})
InVerbatim(src, s, k, len) ==
    LET vb == s.vb IN
    IF k = "`" /\ len = vb[2]
    THEN \* closed, maybe followed by a raw format
        LET lx == LexPeek(src, [s.lx EXCEPT !.vb = FALSE])
            a == LexAhead(lx)
            q == Find(src, a + 2, s.le, LAMBDA c : RawStopT[c + 1])
            raw == PeekKind(lx) = "{=" /\ q > a + 2 /\ StartsB(src, q, s.le, 125)
            c == IF raw THEN << "rawi", Sub(src, a + 2, q) >> ELSE s.ev[vb[1]][2]
            ev1 == [s.ev EXCEPT ![vb[1]][2] = c]
            ev2 == IF vb[4] > 0 THEN SubSeq(ev1, 1, vb[4]) ELSE ev1
            se == IF raw THEN q + 1 ELSE s.se
            s1 == [s EXCEPT !.vb = << >>, !.se = se,
                            !.lx = IF raw THEN NewLexer(q + 1, s.le) ELSE lx,
                            !.ev = Append(ev2, IEv("X", c, << >>, s.ss, se))] IN
        IF raw \/ PeekKind(lx) # "{" THEN s1
        ELSE AheadAttrs(src, s1, s1.se, FALSE, vb[1] - 1).s
    ELSE IF AllBlank(src, s.ss, s.se)
    THEN IF vb[3] THEN IPush(s, "S", << >>)
         ELSE LET lx == LexPeek(src, s.lx)
                  s1 == [s EXCEPT !.lx = lx] IN
              IF PeekKind(lx) = "`" /\ lx.nx[2] # vb[2] THEN s1   \* padding
              ELSE IPush(s1, "S", << >>)
    ELSE IPush([s EXCEPT !.vb = << vb[1], vb[2], TRUE, IF k = "`" THEN Len(s.ev) + 1 ELSE 0 >>],
               "S", << >>)

OpenVerbatim(src, s, len) ==
    LET n == Len(s.ev)
        dollar == n > 0 /\ s.ev[n][1] = "S" /\ s.ev[n][5] = s.ss
                  /\ At(src, s.ss - 1) = 36 /\ ~IsEscaped(src, s.ss - 1)
        double == dollar /\ s.ev[n][5] - s.ev[n][4] > 1
                  /\ At(src, s.ss - 2) = 36 /\ ~IsEscaped(src, s.ss - 2)
        start == s.ss - (IF double THEN 2 ELSE IF dollar THEN 1 ELSE 0)
        c == IF double THEN << "dmath" >> ELSE IF dollar THEN << "imath" >> ELSE << "verb" >>
        ev1 == IF dollar THEN [s.ev EXCEPT ![n][5] = start] ELSE s.ev IN
    [s EXCEPT !.ss = start, !.lx.vb = TRUE,
              !.ev = ev1 \o << IEv("P", << >>, << >>, start, start),
                               IEv("E", c, << >>, start, s.se) >>,
              !.vb = << n + 2, len, FALSE, 0 >>]

(* --- elements recognised by scanning ahead ------------------------------------ *)
AutoStopT == Table(WsSet \cup {60, 62})
Autolink(src, s) ==
    LET a == LexAhead(s.lx)
        q == Find(src, a, s.le, LAMBDA c : AutoStopT[c + 1]) IN
    IF StartsB(src, q, s.le, 62) /\ Find(src, a, q, LAMBDA c : c = 58 \/ c = 64) < q
    THEN LET c == << "auto", Sub(src, a, q) >> IN
         [ok |-> TRUE, s |-> [s EXCEPT !.lx = NewLexer(q + 1, s.le), !.ss = q, !.se = q + 1,
             !.ev = @ \o << IEv("E", c, << >>, s.ss, s.se), IEv("S", << >>, << >>, a, q),
                            IEv("X", c, << >>, q, q + 1) >>]]
    ELSE [ok |-> FALSE, s |-> s]

SymStopT == Table(WsSet \cup {58})
SymCharT == Table(AlnumSet \cup {45, 43, 95})
Symbol(src, s) ==
    LET a == LexAhead(s.lx)
        q == Find(src, a, s.le, LAMBDA c : SymStopT[c + 1]) IN
    IF StartsB(src, q, s.le, 58) /\ Find(src, a, q, LAMBDA c : ~SymCharT[c + 1]) = q
    THEN [ok |-> TRUE, s |-> IPush([s EXCEPT !.lx = NewLexer(q + 1, s.le), !.se = q + 1],
                                   "A", << "sym", Sub(src, a, q) >>)]
    ELSE [ok |-> FALSE, s |-> s]

FootnoteRef(src, s0) ==
    LET lx == LexPeek(src, s0.lx)
        s == [s0 EXCEPT !.lx = lx]
        a == LexAhead(lx) + 1
        q == Find(src, a, s.le, LAMBDA c : c = 91 \/ c = 93 \/ c = 10) IN
    IF PeekKind(lx) = "^" /\ StartsB(src, q, s.le, 93)
    THEN [ok |-> TRUE, s |-> IPush([s EXCEPT !.lx = NewLexer(q + 1, s.le), !.se = q + 1],
                                   "A", << "fnref", Sub(src, a, q) >>)]
    ELSE [ok |-> FALSE, s |-> s]

(* --- atoms ---------------------------------------------------------------------- *)
(* Runs of at least two hyphens: as many em dashes as possible if the run  *)
(* divides by three, en dashes if it is even, otherwise em dashes followed *)
(* by the fewest en dashes.                                                *)
Dashes(len) ==
    IF len % 3 = 0 THEN << len \div 3, 0 >>
    ELSE IF len % 2 = 0 THEN << 0, len \div 2 >>
    ELSE LET n == CHOOSE n \in 1..2 : (len - 2 * n) % 3 = 0 IN << (len - 2 * n) \div 3, n >>
Atom(src, s, k, len) ==
    CASE k = "NL" -> IPush(s, "A", << "sb" >>)
      [] k = "Hard" -> IPush(s, "A", << "hb" >>)
      [] k = "Esc" -> IPush(s, "A", << "esc" >>)
      [] k = "Nbsp" -> IPush(s, "A", << "nbsp" >>)
      [] k = ".." ->
            LET n == len \div 3
                dots == [i \in 1..n |-> IEv("A", << "ell" >>, << >>, s.ss + 3 * (i - 1), s.ss + 3 * i)] IN
            IPush([s EXCEPT !.ss = @ + 3 * n, !.ev = @ \o dots], "S", << >>)
      [] k = "--" /\ len >= 2 ->
            LET d == Dashes(len)
                em == [i \in 1..d[1] |-> IEv("A", << "emd" >>, << >>, s.ss + 3 * (i - 1), s.ss + 3 * i)]
                b == s.ss + 3 * d[1]
                en == [i \in 1..d[2] |-> IEv("A", << "end" >>, << >>, b + 2 * (i - 1), b + 2 * i)] IN
            [s EXCEPT !.ss = s.se, !.ev = @ \o em \o en]
      [] k = "{'" -> IPush(s, "A", << "lsq" >>)
      [] k \in {"'", "'}"} -> IPush(s, "A", << "rsq" >>)
      [] k = "{q" -> IPush(s, "A", << "ldq" >>)
      [] k \in {"q", "q}"} -> IPush(s, "A", << "rdq" >>)
      [] OTHER -> IPush(s, "S", << >>)

(* --- paired delimiters ------------------------------------------------------------ *)
(* Label of a reference whose label is empty: the source of the text and   *)
(* atoms of its content, escapes and markup removed, line breaks as spaces.*)
OwnLabel(src, evs) ==
    FoldLeft(LAMBDA acc, e :
        IF e[1] = "S" \/ (e[1] = "A" /\ e[2][1] # "esc")
        THEN acc \o (IF e[1] = "A" /\ e[2][1] \in {"sb", "hb"} THEN << 32 >> ELSE Sub(src, e[4], e[5]))
        ELSE acc, << >>, evs)

(* Label or destination a..b that spans several lines: without line breaks  *)
(* and prefixes of containers, the lines of a label separated by spaces.    *)
MultilineSpec(src, lines, a, b, inline) ==
    FoldLeft(LAMBDA acc, l :
        LET x == Max2(l[1], a)
            y == Min2(l[2], b)
            z == IF x < y /\ At(src, y - 1) = 10 THEN y - 1 ELSE y IN
        IF x >= z THEN acc
        ELSE acc \o (IF acc # << >> /\ ~inline THEN << 32 >> ELSE << >>) \o Sub(src, x, z),
        << >>, lines)

CloseLink(src, s, o) ==
    LET eo == o.e
        inline == o.o = "ilink"
        a == s.ev[eo][5]
        b == s.ss
        spec == IF a = b /\ ~inline
                THEN OwnLabel(src, SubSeq(s.ev, o.es + 1, eo - 2))
                ELSE IF s.ev[eo][4] < s.ls
                THEN MultilineSpec(src, s.all, a, b, inline)
                ELSE Sub(src, a, b)
        c == << IF inline THEN (IF o.img THEN "iimg" ELSE "ilink")
                ELSE (IF o.img THEN "rimg" ELSE "rlink"), spec >>
        ev1 == [SubSeq(s.ev, 1, eo - 1) EXCEPT ![o.es][1] = "E", ![o.es][2] = c,
                    ![eo - 1] = IEv("X", c, << >>, s.ev[eo - 1][4], b + 1)] IN
    [s EXCEPT !.ev = ev1]

TryOpen(src, s, k, len) ==
    LET a == LexAhead(s.lx)
        wsAfter == a >= s.le \/ IsWs(At(src, a))
        wsBefore == s.ss > 0 /\ IsWs(At(src, s.ss - 1))
        n == Len(s.ev) IN
    IF k \notin DOMAIN OpenerName THEN Atom(src, s, k, len)
    ELSE LET o == OpenerName[k] IN
    IF o \in Bidirectional /\ wsAfter THEN Atom(src, s, k, len)
    ELSE IF o = "'" /\ n > 0 /\ s.ev[n][1] = "S" /\ ~wsBefore THEN Atom(src, s, k, len)
    ELSE [s EXCEPT !.op = Append(@, [o |-> o, e |-> n + 1, es |-> 0, img |-> k = "!["]),
                   !.ev = @ \o << IEv("P", << >>, << >>, s.ss, s.ss),
                        IF o = "'" THEN IEv("A", << "rsq" >>, << >>, s.ss, s.se)
                        ELSE IF o = "q" THEN IEv("A", << "ldq" >>, << >>, s.ss, s.se)
                        ELSE IEv("S", << >>, << >>, s.ss, s.se) >>]

Delimiter(src, s, k, len) ==
    LET i == SelectLastInSeq(s.op, LAMBDA o : k \in Closers[o.o]) IN
    IF i = 0 THEN TryOpen(src, s, k, len)
    ELSE
    LET o == s.op[i]
        link == o.o \in {"rlink", "ilink"}
        bracket == o.o \in {"Ob", "!["}
        eo == IF link THEN o.e ELSE o.e + 1
        ea == IF link THEN o.es - 1 ELSE o.e
        wsBefore == IsWs(At(src, Max2(s.ss, 1) - 1)) IN
    IF (~link /\ ~bracket /\ eo = Len(s.ev)) \/ (o.o \in Bidirectional /\ wsBefore)
    THEN TryOpen(src, s, k, len)
    ELSE
    LET s1 == [s EXCEPT !.op = SubSeq(@, 1, i - 1)] IN
    IF o.o \in DOMAIN ContainerOf
    THEN LET c == ContainerOf[o.o] IN
         MaybeAttrs(src, IPush([s1 EXCEPT !.ev[eo][1] = "E", !.ev[eo][2] = c], "X", c), FALSE, ea)
    ELSE IF o.o \in {"'", "q"}
    THEN MaybeAttrs(src, IPush([s1 EXCEPT !.ev[eo][2] = << IF o.o = "'" THEN "lsq" ELSE "ldq" >>],
                               "A", << IF o.o = "'" THEN "rsq" ELSE "rdq" >>), TRUE, 0)
    ELSE IF bracket
    THEN LET lx == LexPeek(src, s1.lx)
             s2 == IPush([s1 EXCEPT !.lx = lx], "S", << >>) IN     \* ]
         IF PeekKind(lx) \in {"Ob", "Op"}
         THEN LET t == LexNext(src, lx)
                  s3 == [s2 EXCEPT !.ss = s2.se, !.se = @ + t[2], !.lx = t[3],
                           !.op = Append(@, [o |-> IF t[1] = "Op" THEN "ilink" ELSE "rlink",
                                             e |-> Len(s2.ev) + 1, es |-> eo, img |-> o.img])] IN
              IPush(s3, "S", << >>)
         ELSE MaybeAttrs(src, s2, FALSE, ea)
    ELSE MaybeAttrs(src, CloseLink(src, s1, o), FALSE, ea)

(* --- one step ------------------------------------------------------------------- *)
InlineStep(src, s) ==
    LET t == LexNext(src, s.lx) k == t[1] len == t[2] IN
    IF k = ""
    THEN IF s.ah = << >> THEN [s EXCEPT !.fin = TRUE, !.ss = s.se]
         ELSE LET l == s.ah[1] IN
              [s EXCEPT !.lx = [NewLexer(l[1], l[2]) EXCEPT !.vb = s.lx.vb],
                        !.ss = l[1], !.se = l[1], !.ls = l[1], !.le = l[2], !.ah = Tail(@)]
    ELSE
    LET s1 == [s EXCEPT !.lx = t[3], !.ss = s.se, !.se = @ + len] IN
    IF s1.vb # << >> THEN InVerbatim(src, s1, k, len)
    ELSE IF k = "Text" THEN IPush(s1, "S", << >>)
    ELSE IF k = "`"
    THEN IF len < 256 THEN OpenVerbatim(src, s1, len) ELSE IPush(s1, "S", << >>)
    ELSE IF k = "{"
    THEN LET r == AheadAttrs(src, s1, s1.ss, TRUE, 0) IN IF r.ok THEN r.s ELSE IPush(s1, "S", << >>)
    ELSE IF k = "<"
    THEN LET r == Autolink(src, s1) IN IF r.ok THEN r.s ELSE IPush(s1, "S", << >>)
    ELSE IF k = ":"
    THEN LET r == Symbol(src, s1) IN IF r.ok THEN r.s ELSE IPush(s1, "S", << >>)
    ELSE IF k = "Ob"
    THEN LET r == FootnoteRef(src, s1) IN IF r.ok THEN r.s ELSE Delimiter(src, r.s, k, len)
    ELSE Delimiter(src, s1, k, len)

(* At the end of the block an open verbatim is closed.                     *)
InlineEnd(s) ==
    IF s.vb = << >> THEN s
    ELSE [s EXCEPT !.vb = << >>, !.ev = Append(@, IEv("X", s.ev[s.vb[1]][2], << >>, s.se, s.se))]

RECURSIVE InlineRun(_, _)
InlineRun(src, s) == IF s.fin THEN InlineEnd(s) ELSE InlineRun(src, InlineStep(src, s))

(* --- settling: merge text, place word attributes, drop placeholders ------------- *)
RECURSIVE MergeEnd(_, _, _)
MergeEnd(ev, i, e) ==       \* << next index, end >> of text merged from index i on
    IF i <= Len(ev) /\ ev[i][1] \in {"S", "P"} /\ ev[i][4] = e THEN MergeEnd(ev, i + 1, ev[i][5])
    ELSE << i, e >>
IsWordT(ev, i) == i <= Len(ev) /\ ev[i][1] = "T" /\ ev[i][2] = << "W" >>

RECURSIVE Settle(_, _, _, _)
Settle(src, ev, i, out) ==
    IF i > Len(ev) THEN out
    ELSE
    LET e == ev[i] IN
    IF e[1] = "P" THEN Settle(src, ev, i + 1, out)
    ELSE IF e[1] # "S" THEN Settle(src, ev, i + 1, Append(out, e))
    ELSE IF e[4] = e[5] /\ ~IsWordT(ev, i + 1) THEN Settle(src, ev, i + 1, out)
    ELSE
    LET m == MergeEnd(ev, i + 1, e[5])
        a == e[4]
        b == m[2] IN
    IF ~IsWordT(ev, m[1]) THEN Settle(src, ev, m[1], Append(out, IEv("S", << >>, << >>, a, b)))
    ELSE
    LET t == ev[m[1]]
        w == FindLast(src, a, b, LAMBDA c : IsWs(c)) + 1     \* start of the word
        ws == Max2(w, a)
        out1 == IF w > a THEN Append(out, IEv("S", << >>, << >>, a, w)) ELSE out IN
    IF ws = b
    THEN Settle(src, ev, m[1] + 1, Append(out1, t))       \* no word: stand-alone
    ELSE Settle(src, ev, m[1] + 2,
                out1 \o << t, IEv("E", << "span" >>, << >>, ws, ws), IEv("S", << >>, << >>, ws, b),
                           IEv("X", << "span" >>, << >>, t[4], t[5]) >>)

(* Events of a leaf block with the given inline lines.                     *)
InlineEvents(src, lines) ==
    IF lines = << >> THEN << >>
    ELSE Settle(src, InlineRun(src, Inline0(lines)).ev, 1, << >>)
=============================================================================
