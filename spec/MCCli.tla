-------------------------------- MODULE MCCli --------------------------------
(***************************************************************************)
(* The run of the tool as a state machine over every scenario: options,    *)
(* reading, opening, writing byte by byte, exit.  Scenarios are written    *)
(* out to be carried out with the real tool.                                *)
(***************************************************************************)
EXTENDS Cli, Json
Size == 3            \* length of the rendered output
Limit == 1
VARIABLES scen, phase, out, status
vars == << scen, phase, out, status >>
Init == scen \in Scenarios /\ phase = "options" /\ out = 0 /\ status = 0 - 1
Fail == phase' = "exit" /\ status' = 1 /\ UNCHANGED out
Options == phase = "options" /\ IF scen.bad # "" THEN Fail ELSE phase' = "read" /\ UNCHANGED << out, status >>
Read == phase = "read" /\ IF Readable(scen) THEN phase' = "open" /\ UNCHANGED << out, status >> ELSE Fail
Open_ == phase = "open" /\ IF Room(scen, Size, Limit) < 0 THEN Fail ELSE phase' = "write" /\ UNCHANGED << out, status >>
Write == phase = "write" /\ IF out = Size THEN phase' = "exit" /\ status' = 0 /\ UNCHANGED out
                            ELSE IF out < Room(scen, Size, Limit) THEN out' = out + 1 /\ UNCHANGED << phase, status >>
                            ELSE Fail
Next == (Options \/ Read \/ Open_ \/ Write) /\ UNCHANGED scen
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Honest == phase = "exit" => (status = 0) = Succeeds(scen, Size, Limit) /\ (status = 0 => out = Size)
Ends == <>(phase = "exit")
Emit == phase # "options" \/ PrintT("HIST " \o ToJson(scen))
=============================================================================
