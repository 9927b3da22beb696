------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Families of source texts: every sequence of at most a given number of   *)
(* tokens from a family's token list, after one of its beginnings.  Each   *)
(* family is a closed world around one mechanism, small enough to be       *)
(* explored completely.                                                    *)
(***************************************************************************)
EXTENDS Bytes

EAcute == << 195, 169 >>
Nl == << 10 >>

(* Texts are written with "~n" tokens already as bytes.                     *)
Toks(strs) == [i \in 1..Len(strs) |-> B(strs[i])] \o << >>

(* name |-> << beginnings, tokens >>                                        *)
FamilyTable == [
  lines |-> << Toks(<< "" >>),
      Toks(<< "a", "\n", "> ", "- ", "1. ", ": ", "# ", "```\n", "::: c\n", "|", "  ", "{.k}", "***" >>) >>,
  nest |-> << Toks(<< "", "> ", "- a\n\n  " >>),
      Toks(<< "a\n", "\n", "> ", ">", "- ", "  ", "    ", ": ", ":::\n", "~~~\n", "\t" >>) >>,
  list |-> << Toks(<< "" >>),
      Toks(<< "- a\n", "- ", "+ ", "* [x] ", "i. ", "ii) ", "(a) ", "3. ", "a\n", "\n", "  ", ": ", "- [ ] " >>) >>,
  marker |-> << Toks(<< "", "iv. a\n", "(A) a\n", "5) a\n", "z. a\n", "- [X] a\n", "0. a\n", "c. a\n" >>),
      Toks(<< "v", "i", "x", "b", "I", "B", "1", "9", ".", ")", "(", " ", "\n", "a", "- [x] b" >>) >>,
  roman |-> << Toks(<< "", "(k) a\n" >>),
      Toks(<< "c. b\n", "d. b\n", "m. b\n", "l. b\n", "ii. b\n", "C) b\n", "D) b\n", "E) b\n", "(l) b\n", "e. b\n",
              "x. b\n", "cd. b\n" >>) >>,
  head |-> << Toks(<< "" >>),
      Toks(<< "# ", "## ", "### a\n", "#", "a", "-", "\n", "> ", "{#i}\n", "{.c}", " ", "*b*", "::: \n" >>) >>,
  ids |-> << Toks(<< "# " >>),
      Toks(<< "a", "A", " ", "-", "_", "\n", "1", ".", "\n\n# ", "*", "`", "{#a}\n\n# ", "--", "\\" >>) >>,
  refs |-> << Toks(<< "[a]: u\n\n", "{.d}\n[a]: u\n\n", "# a\n\n", "# a *b*\n\n" >>),
      Toks(<< "[", "]", "a", "[a][]", "[a]: v\n", "\n", "][", "!", "[a", "{.k}", "*", " ", "b" >>) >>,
  defs |-> << Toks(<< "[a][]\n\n[a]:", "[^a]\n\n[^a]:", "[a][]\n\n[a]: u\n" >>),
      Toks(<< " ", "u", "\n", "  ", "v w", "[b]: ", "[^b]:", "\\", "a", "{.k}", "<", ">" >>) >>,
  table |-> << Toks(<< "", "|a|b|\n", "| a\n" >>),
      Toks(<< "|", "a", "-", ":", " ", "\n", "`", "\\", "^ c", "*", "|-|\n", "|:-:|\n" >>) >>,
  fence |-> << Toks(<< "", "> ", "- " >>),
      Toks(<< "```", "~~~", "`", " ", "a", "\n", "=html", "{.k}", "> ", "  ", ":::", "\t", "\\" >>) >>,
  verb |-> << Toks(<< "", "a", "$" >>),
      Toks(<< "`", "``", " ", "a", "$", "\\", "\n", "{=html}", "{.k}", "*", "$$" >>) >>,
  emph |-> << Toks(<< "" >>),
      Toks(<< "*", "_", "a", " ", "{*", "*}", "{_", "_}", "\\", "[", "](u)", "`" >>) >>,
  braces |-> << Toks(<< "", "a" >>),
      Toks(<< "{", "}", "+", "-", "=", "~", "^", "a", " ", "'", "*" >>) >>,
  links |-> << Toks(<< "", "!" >>),
      Toks(<< "[", "]", "(", ")", "a", "!", "\\", "\n", "*", "{.k}", "`", "[^" >>) >>,
  auto |-> << Toks(<< "<", ":", "[^" >>),
      Toks(<< "a", ":", "@", "<", ">", " ", "\\", "]", "*", "/", "\n", "-" >>) >>,
  smart |-> << Toks(<< "", "a", "(" >>),
      Toks(<< "'", "\"", "-", ".", "...", "--", " ", "a", "{", "}", "\\", "\n", "9", "*" >>) >>,
  escape |-> << Toks(<< "", "a", "`a`" >>),
      Toks(<< "\\", " ", "\n", "\t", "*", "a", "{", "|", "`", ":", "'", "{.k}" >>) >>,
  iattr |-> << Toks(<< "a", "*b*", "[c]" >>),
      Toks(<< "{", "}", ".k", "#i", "a=b", "%x%", " ", "\n", "c", "=\"", "\"", "\\", "{.m}" >>) >>,
  battr |-> << Toks(<< "" >>),
      Toks(<< "{.k}", "{", "#i", "}", "\n", " ", "a", "> ", "- ", "# ", "%c%", "a=\"", "\"", "|x|\n" >>) >>,
  notes |-> << Toks(<< "[^a]\n\n", "a[^b]\n\n[^b]: c[^a]\n\n" >>),
      Toks(<< "[^a]", "[^b]", ": ", "[^a]: ", "a", "\n", "  ", "- ", "> ", "`b`", "# ", "{.k}\n", "![", "](u)" >>) >>,
  html |-> << Toks(<< "", "![", "``` =html\n" >>),
      Toks(<< "<", ">", "&", "\"", "a", "](u)", "[", "{a=\"", "\"}", "`", "{=html}", "\n", "{.k}", "*", "- " >>) >>,
  blanks |-> << Toks(<< "", "- a" >>),
      Toks(<< "\n", "\n\n", " ", "\t", "a", "- ", "> ", "\f", "\r", "::: \n", "# " >>) >>,
  levels |-> << Toks(<< "", "# a\n\n" >>),
      Toks(<< "# b\n", "## c\n", "#### d\n", "###### e\n", "####### f\n", "######### g\n", "> # q\n", "- ## l\n",
              "{.k}\n", "\n", "p\n" >>) >>,
  runs |-> << Toks(<< "", "a" >>),
      Toks(<< "``````", "~~~~~", "::::::", "--------", "*****", "_____", ".....", "########", "||||", "\\\\\\", "a", "\n", " " >>) >>,
  ctx |-> << Toks(<< "", "a[b][] [^c]\n\n", "> " >>),
      Toks(<< "> ", "  ", "[b]: u\n", "```\n", "|a|\n", "^ d\n", "- ", "\n", "    \n", "[^c]: ", "e\n", "[f](g\n", "{.k\n" >>) >>
]
Families == DOMAIN FamilyTable
Starts(f) == FamilyTable[f][1]
Tokens(f) == FamilyTable[f][2]

(* Hexadecimal form, for the documents written out.                         *)
HexDigit == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
HexByte == [i \in 1..256 |-> HexDigit[((i - 1) \div 16) + 1] \o HexDigit[((i - 1) % 16) + 1]] \o << >>
Hex(b) == FoldLeft(LAMBDA acc, c : acc \o HexByte[c + 1], "", b)
=============================================================================
