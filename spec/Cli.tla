--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tool: a run is determined by where the input comes     *)
(* from, where the output goes, and the options.                            *)
(*   from  "file" "stdin" "missing" "directory" "badutf8" "badutf8stdin"    *)
(*         "oddname" (a file whose name is not UTF-8)                       *)
(*   to    "stdout" "pipeclosed" "stdoutfull" "stdoutlimit" "file"          *)
(*         "existing" (a longer file) "nodir" "directory" "full" "limit"    *)
(*         "same" (the input file itself)                                   *)
(*   opt   << minified, indent string, start indent >>, or "bad"            *)
(* A limit lets only some first part of the output through.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Froms == {"file", "stdin", "missing", "directory", "badutf8", "badutf8stdin", "oddname"}
Tos == {"stdout", "pipeclosed", "stdoutfull", "stdoutlimit", "file", "existing", "nodir", "directory",
        "full", "limit", "same"}
Opts == {<< FALSE, "", 0 >>, << TRUE, "", 0 >>, << FALSE, "\t", 0 >>, << FALSE, "  ", 2 >>, << TRUE, " ", 3 >>,
         << FALSE, "", 5 >>, << FALSE, "-", 1 >>}
BadOpts == {"--unknown", "--start-indent=x", "--start-indent=-1", "extra"}

Scenarios == { s \in [from : Froms, to : Tos, opt : Opts, bad : {""} \cup BadOpts] :
                 /\ s.to = "same" => s.from = "file"
                 /\ s.bad # "" => s.from \in {"file", "missing"} /\ s.to \in {"stdout", "file"} /\ s.opt = << FALSE, "", 0 >> }

Readable(s) == s.bad = "" /\ s.from \in {"file", "stdin", "oddname"}
(* Bytes of an output of length n that the destination takes, before it     *)
(* refuses; -1 if it cannot even be opened.                                 *)
Room(s, n, limit) ==
    CASE s.to \in {"stdout", "file", "existing", "same"} -> n
      [] s.to \in {"stdoutlimit", "limit"} -> IF limit < n THEN limit ELSE n
      [] s.to \in {"nodir", "directory"} -> 0 - 1
      [] OTHER -> 0
(* A run: whether it succeeds, and the output that arrives.                 *)
Succeeds(s, n, limit) == Readable(s) /\ Room(s, n, limit) = n
=============================================================================
