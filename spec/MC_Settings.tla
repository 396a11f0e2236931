---------------------------- MODULE MC_Settings -----------------------------
(***************************************************************************)
(* Settings under every sequence of operations on a few parameters: what   *)
(* holds is what was stated last, and a default otherwise.                 *)
(***************************************************************************)
EXTENDS Settings, Json, IOUtils, CSV

CONSTANT DEPTH

VARIABLES c, ops
vars == <<c, ops>>

\* values in the form the driver compares them in
Def == ("time_limit" :> "60.0") @@ ("round_distances" :> "true") @@ ("solution_path" :> "null") @@ ("seed" :> "1.0")
       @@ ("max_iterations_without_improvement" :> "20000.0") @@ ("instance_path" :> "''")
Unknown == ("timelimit" :> "3.0")
Files == { Unknown,
           "time_limit" :> "5.0",
           ("time_limit" :> "7.0") @@ ("round_distances" :> "false"),
           ("solution_path" :> "'y.sol'") @@ ("seed" :> "4.0") @@ Unknown,
           ("solution_path" :> "null") @@ ("max_iterations_without_improvement" :> "9.0") }
Lines == { "instance_path" :> "'i.vrp'",
           ("instance_path" :> "'i.vrp'") @@ ("time_limit" :> "0.0"),
           ("instance_path" :> "'i.vrp'") @@ ("round_distances" :> "true") @@ ("solution_path" :> "'a.sol'"),
           ("instance_path" :> "'j.vrp'") @@ ("round_distances" :> "false") @@ ("max_iterations_without_improvement" :> "3.0") }
Ops == ({"load", "update"} \X Files) \cup {<<"reset", Unknown>>} \cup ({"args"} \X Lines)

Init == c = Def /\ ops = <<>>
\* the arguments of a program are read once
Next == Len(ops) < DEPTH /\ \E o \in {x \in Ops : x[1] = "args" => \A k \in 1..Len(ops) : ops[k][1] # "args"} : ops' = Append(ops, o) /\ c' = Operate(Def, c, o[1], o[2])
Spec == Init /\ [][Next]_vars

\* the last operation that decides about the key: one that states it, or that goes back to the defaults
Decides(o, key) == o[1] \in {"load", "reset"} \/ key \in DOMAIN o[2]
LastDeciding(key) == LET S == {k \in 1..Len(ops) : Decides(ops[k], key)}
                     IN  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Said(key) == LET k == LastDeciding(key)
             IN  IF k = 0 \/ ops[k][1] = "reset" \/ key \notin DOMAIN ops[k][2] THEN Def[key] ELSE ops[k][2][key]
LastSaysSo == \A key \in DOMAIN Def \ {"solution_path"} : c[key] = Said(key)
\* there is a path once arguments have been read, unless a later operation took it away
PathKnown == (ops # <<>> /\ ops[Len(ops)][1] = "args") => c["solution_path"] # "null"
PathAsSaid == LET k == LastDeciding("solution_path")
              IN  Said("solution_path") # "null" => c["solution_path"] = Said("solution_path")
KeysKept == DOMAIN c = DOMAIN Def
\* one file and then the arguments, as the program does it
AsTheProgram == (Len(ops) = 2 /\ ops[1][1] = "load" /\ ops[2][1] = "args") =>
  \A key \in DOMAIN Def : c[key] = Effective(Def, ops[1][2], ops[2][2], key)
ASSUME \A o \in Ops : AfterOps(Def, <<o>>, 1) = Operate(Def, Def, o[1], o[2])

Export == IF "OUT" \in DOMAIN IOEnv /\ Len(ops) = DEPTH
          THEN CSVWrite("%1$s", <<ToJson([ops |-> ops])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
