------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* The value of a parameter.  def, yaml and arg map parameters to values;  *)
(* def knows all parameters.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Stated(yaml, key) == key \in DOMAIN yaml /\ ~(key = "solution_path" /\ yaml[key] = "null")
\* a path for the solution is always known
Default(def, key) == IF key = "solution_path" THEN "'output.sol'" ELSE def[key]

Effective(def, yaml, arg, key) ==
  IF key \in DOMAIN arg THEN arg[key]
  ELSE IF Stated(yaml, key) THEN yaml[key]
  ELSE Default(def, key)

WrongKeys(def, yaml, arg, eff) ==
  {key \in DOMAIN def : key \notin DOMAIN eff \/ eff[key] # Effective(def, yaml, arg, key)}

(***************************************************************************)
(* Settings as a state that files, arguments and resets change one after   *)
(* the other: c maps parameters to values.  An operation is a name and a   *)
(* map; "load" starts from the defaults, "update" from what there is.      *)
(***************************************************************************)
Override(c, m) == [key \in DOMAIN c |-> IF key \in DOMAIN m THEN m[key] ELSE c[key]]
WithArguments(c, m) ==
  LET d == IF c["solution_path"] = "null" THEN [c EXCEPT !["solution_path"] = "'output.sol'"] ELSE c
  IN  Override(d, m)
Operate(def, c, op, m) ==
  CASE op = "load"   -> Override(def, m)
    [] op = "update" -> Override(c, m)
    [] op = "reset"  -> def
    [] op = "args"   -> WithArguments(c, m)
RECURSIVE AfterOps(_, _, _)
\* ops: a sequence of <<operation, map>>
AfterOps(def, ops, k) == IF k = 0 THEN def ELSE Operate(def, AfterOps(def, ops, k - 1), ops[k][1], ops[k][2])
=============================================================================
