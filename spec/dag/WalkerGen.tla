----------------------------- MODULE WalkerGen -----------------------------
(***************************************************************************)
(* Every script of the caller, once per shape, for execution against the   *)
(* real walkers.  A script that asked for no stop is continued by the      *)
(* harness until the channel is closed.                                    *)
(***************************************************************************)
EXTENDS MCWalker, Json
GenView == <<shape, script, left, wpc, sig, cpc>>
GenShapes == SmallShapes \cup {<<3>>, <<2, 2>>, <<1, 2, 1>>, [k \in 1..12 |-> 1], <<5, 1>>}
\* The run ends here; the same script may be printed more than once, because
\* different schedules lead to it, and the harness runs it that many times.
EmitScript == (cpc' = "gone") => PrintT("@H " \o ToJson([shape |-> shape, script |-> script]))
============================================================================
