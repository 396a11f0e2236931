------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Reading a recorded behaviour.  A trace is a sequence of records with a  *)
(* kind "k".  A record of kind "inst" opens a group: the records after it  *)
(* belong to that instance.                                                *)
(*                                                                         *)
(* A trace specification walks along the trace with variable l, and for    *)
(* each record computes the set of its disagreements with the              *)
(* specification.  Each disagreement is printed as                         *)
(*      <<"BAD", line, names>>                                             *)
(* and <<"DONE", lines>> is printed when all of it has been compared.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Log)


Report(line, names) == IF names = {} THEN TRUE ELSE PrintT(<<"BAD", line, names>>)
ReportEnd(line) == IF line = TraceLen THEN PrintT(<<"DONE", TraceLen>>) ELSE TRUE
=============================================================================
