---------------------------- MODULE MC_Schedule -----------------------------
(***************************************************************************)
(* A cooling schedule under every sequence of updates and resets: the      *)
(* iteration schedule of n steps, and the time schedule whose duration     *)
(* passes at any moment and which looks at the clock every rate-th step.   *)
(***************************************************************************)
EXTENDS Schedule, TLC, Json, IOUtils, CSV

CONSTANTS STEPS, RATES, DEPTH

VARIABLES n, i, ops,            \* iteration schedule
          rate, t, passed       \* time schedule; has the duration passed since the last reset
vars == <<n, i, ops, rate, t, passed>>

Init == /\ n \in STEPS /\ i = 0 /\ ops = <<>>
        /\ rate \in RATES /\ t = TimeNew /\ passed = FALSE
Do(op) == /\ Len(ops) < DEPTH
          /\ ops' = Append(ops, op)
          /\ i' = Step(i, op)
          /\ t' = TimeStep(t, op, rate, passed)
          /\ passed' = (passed /\ op # "reset")
          /\ UNCHANGED <<n, rate>>
TimePasses == ~passed /\ passed' = TRUE /\ UNCHANGED <<n, i, ops, rate, t>>
Next == Do("update") \/ Do("reset") \/ TimePasses
Spec == Init /\ [][Next]_vars

RECURSIVE SinceReset(_)
SinceReset(k) == IF k = 0 \/ ops[k] = "reset" THEN 0 ELSE 1 + SinceReset(k - 1)

\* finished exactly after its number of steps since the last reset, and it stays finished until a reset
ExactlyItsSteps == Finished(i, n) = (SinceReset(Len(ops)) >= n)
StaysFinished == [][(Finished(i, n) /\ ops' # ops /\ ops'[Len(ops')] # "reset") => Finished(i', n)]_vars
\* a reset schedule is a new one
ResetIsNew == (ops # <<>> /\ ops[Len(ops)] = "reset") => i = 0 /\ t = TimeNew
\* the time schedule never ends before its time, and at the latest rate steps after it
NotTooEarly == t.done => passed
LooksAtTheClock == t.c < rate
DoneInTime == [][(passed /\ ops' # ops /\ ops'[Len(ops')] = "update" /\ t.c + 1 = rate) => t'.done]_vars
\* the curve falls from one to zero
ASSUME \A k \in 1..20 : Exp20[k + 1] < Exp20[k]
ASSUME \A m \in {1, 2, 4, 5, 10, 20} : Curve(0, m) = 1000000 /\ Curve(m, m) \in -2..2 /\ \A k \in 1..m : Curve(k, m) < Curve(k - 1, m)

Export == IF "OUT" \in DOMAIN IOEnv /\ Len(ops) = DEPTH
          THEN CSVWrite("%1$s", <<ToJson([n |-> n, ops |-> ops])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
