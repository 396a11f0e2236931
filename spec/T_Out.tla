-------------------------------- MODULE T_Out --------------------------------
(* Written and printed solutions of the real code against Output.          *)
EXTENDS TraceBase, Output

VARIABLES l, inst

SolCheck(t) ==
  IF t.none THEN Failing(<< <<"no-solution-no-text", t.lines = <<>> >> >>)
  ELSE Failing(<< <<"solution-file", IsText(t.lines, t.pc, t.R, t.c)>>,
                  <<"shown-the-same", t.shown = t.lines>> >>)

\* one printed block b for each recorded solution
DimCheck(I, t) == Failing(<<
  <<"one-block-for-each-new-best", Len(t.blocks) = Len(t.hc) /\ t.open = 0>>,
  <<"costs", Len(t.blocks) = Len(t.hc) => \A k \in DOMAIN t.hc : NearestTo(t.blocks[k].pc, t.hc[k])>>,
  <<"form", \A k \in DOMAIN t.blocks : WithoutCost(t.blocks[k].lines) = SolutionLines(t.blocks[k].R)>>,
  <<"whole-problem", \A k \in DOMAIN t.blocks : Partition(I, t.blocks[k].R)>>,
  <<"within-the-capacity", \A k \in DOMAIN t.blocks : Partition(I, t.blocks[k].R) => CapacityOk(I, t.blocks[k].R)>>,
  <<"cost-of-the-routes", I.round => \A k \in DOMAIN t.blocks :
       Partition(I, t.blocks[k].R) => t.blocks[k].pc = <<0, Distance(I, t.blocks[k].R)>> >>,
  <<"last-block", t.blocks # <<>> /\ t.hc # <<>> =>
       LET b == t.blocks[Len(t.blocks)] IN IsText(b.lines, b.pc, t.hl, t.hc[Len(t.hc)])>>,
  <<"solution-file", IF t.hc = <<>> THEN t.sol.lines = <<>> ELSE IsText(t.sol.lines, t.sol.pc, t.hl, t.hc[Len(t.hc)])>> >>)

Check(I, t) ==
  CASE t.k = "inst" -> {}
    [] t.k = "sol" -> SolCheck(t)
    [] t.k = "dim" -> DimCheck(I, t)

Init == l = 0 /\ inst = 1
Next ==
  /\ l < TraceLen
  /\ l' = l + 1
  /\ inst' = IF Log[l + 1].k = "inst" THEN l + 1 ELSE inst
  /\ Report(l + 1, Check(Log[inst'], Log[l + 1]))
  /\ ReportEnd(l + 1)
Spec == Init /\ [][Next]_<<l, inst>>
=============================================================================
