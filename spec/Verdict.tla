------------------------------ MODULE Verdict ------------------------------
(* How the trace specs report: one line per trace, on TLC's standard output. *)
EXTENDS TLC, Json, Naturals, Sequences
Accept(id) == PrintT("VERDICT " \o ToJson([id |-> id, at |-> 0, why |-> ""]))
Reject(id, at, why) == PrintT("VERDICT " \o ToJson([id |-> id, at |-> at, why |-> why]))
=============================================================================
