------------------------------- MODULE T_Ruin -------------------------------
(* Recorded ruin and recreate steps of the real code against RuinRecreate. *)
EXTENDS TraceBase, RuinRecreate

VARIABLES l, inst

Removed(t) == Range(t.mid.removed)
Routes(t) == Range(t.mid.ruined)
RuinCheck(I, t) == ValuesOk(I, t.P, t.pre) \cup PartialValuesOk(I, t.mid)
                   \cup RuinChecks(I, I, t.pre.R, t.mid.R, Removed(t), Routes(t))
RecreateCheck(I, t) == ValuesOk(I, t.P, t.post) \cup PartialValuesOk(I, t.mid)
                       \cup RecreateChecks(I, t.P, t.mid.R, t.post.R, Removed(t), Routes(t))

Check(I, t) ==
  CASE t.k = "st" -> RuinCheck(I, t) \cup RecreateCheck(I, t)
    [] t.k = "ru" -> RuinCheck(I, t)
    [] t.k = "re" -> RecreateCheck(I, t)
    [] OTHER -> {}

Init == l = 0 /\ inst = 1
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ Report(l + 1, Check(Log[inst'], Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst>>
=============================================================================
