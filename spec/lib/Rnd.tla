-------------------------------- MODULE Rnd --------------------------------
(***************************************************************************)
(* Random numbers for simulation.                                          *)
(*                                                                         *)
(* TLC splits a next-state relation at top-level quantifiers over constant *)
(* sets once, before it starts, and would then draw a number only once for *)
(* the whole run; the draw is therefore made to depend on the state: pass  *)
(* any natural number that is taken from a variable.  Bind a drawn number  *)
(* with \E x \in {Rnd(n, s)} so that it is drawn once per step.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
Rnd(n, s) == (RandomElement(0..(1000002 + 0 * s)) \div 37) % n
Pick(seq, s) == seq[1 + Rnd(Len(seq), s)]
============================================================================
