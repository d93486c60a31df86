------------------------------- MODULE Walker -------------------------------
(***************************************************************************)
(* A walk over the ancestors or descendants of a vertex: the walking       *)
(* goroutine and its caller, which share an unbuffered channel of ids and  *)
(* a signal channel with room for one stop request.                        *)
(*                                                                         *)
(* One action per step the two can interleave at: the walker polls the     *)
(* signal, then offers the next vertex while listening to the signal; the  *)
(* caller receives, sends the stop request, closes the signal channel,     *)
(* asks the graph something else, waits until the walker is blocked, or    *)
(* goes away.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Shapes,      \* the sizes of the breadth-first layers
          MaxOps       \* length of the caller's script

VARIABLES
  shape,      \* layer sizes, e.g. <<2, 1>>; the vertices are 1..Sum(shape)
  left,       \* vertices not yet delivered
  wpc,        \* walker: "poll", "offer", "ended"
  sig,        \* "none", "sent", "taken", "closed"
  stopped,    \* the caller has asked the walk to stop
  late,       \* vertices delivered after that
  got,        \* everything received, 0 for "channel closed"
  cpc,        \* caller: "idle", "recv", "gone"
  script      \* what the caller did

vars == <<shape, left, wpc, sig, stopped, late, got, cpc, script>>
walker == <<left, wpc, sig, late, got, cpc>>

RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* The vertices at distance d from the start. *)
Layer(s, d) == (Sum(SubSeq(s, 1, d - 1)) + 1)..Sum(SubSeq(s, 1, d))
LayerOf(s, v) == CHOOSE d \in DOMAIN s : v \in Layer(s, d)

Nearest == {v \in left : \A u \in left : LayerOf(shape, v) <= LayerOf(shape, u)}

Init ==
  /\ shape \in Shapes
  /\ left = 1..Sum(shape)
  /\ wpc = "poll" /\ sig = "none" /\ stopped = FALSE /\ late = 0
  /\ got = << >> /\ cpc = "idle" /\ script = << >>

----------------------------------------------------------------------------
(* The walker. *)

SignalReady == sig \in {"sent", "closed"}

Finish ==                                  \* nothing left: close the channel
  /\ wpc = "poll" /\ left = {}
  /\ wpc' = "ended"
  /\ UNCHANGED <<shape, left, sig, stopped, late, got, cpc, script>>

TakeStop ==                                \* polled, or while offering
  /\ wpc \in {"poll", "offer"} /\ left # {} /\ SignalReady
  /\ wpc' = "ended"
  /\ sig' = IF sig = "sent" THEN "taken" ELSE sig
  /\ UNCHANGED <<shape, left, stopped, late, got, cpc, script>>

Offer ==
  /\ wpc = "poll" /\ left # {} /\ ~SignalReady
  /\ wpc' = "offer"
  /\ UNCHANGED <<shape, left, sig, stopped, late, got, cpc, script>>

Deliver(v) ==                              \* rendezvous with the caller
  /\ wpc = "offer" /\ cpc = "recv"
  /\ v \in Nearest
  /\ left' = left \ {v}
  /\ got' = Append(got, v)
  /\ late' = IF stopped THEN late + 1 ELSE late
  /\ wpc' = "poll" /\ cpc' = "idle"
  /\ UNCHANGED <<shape, sig, stopped, script>>

WalkerStep == Finish \/ TakeStop \/ Offer \/ \E v \in left : Deliver(v)

----------------------------------------------------------------------------
(* The caller. *)

Does(x) == cpc = "idle" /\ Len(script) < MaxOps /\ script' = Append(script, x)

Receive ==
  /\ Does("R")
  /\ cpc' = "recv"
  /\ UNCHANGED <<shape, left, wpc, sig, stopped, late, got>>

ReceiveClosed ==
  /\ cpc = "recv" /\ wpc = "ended"
  /\ got' = Append(got, 0) /\ cpc' = "idle"
  /\ UNCHANGED <<shape, left, wpc, sig, stopped, late, script>>

Stop ==
  /\ Does("S") /\ ~stopped
  /\ sig' = "sent" /\ stopped' = TRUE
  /\ UNCHANGED <<shape, left, wpc, late, got, cpc>>

Close ==
  /\ Does("C") /\ ~stopped
  /\ sig' = "closed" /\ stopped' = TRUE
  /\ UNCHANGED <<shape, left, wpc, late, got, cpc>>

Ask ==                                     \* another query of the graph
  /\ Does("A")
  /\ UNCHANGED <<shape, left, wpc, sig, stopped, late, got, cpc>>

Blocked == wpc = "ended" \/ (wpc = "offer" /\ ~SignalReady)

Wait ==                                    \* until the walker cannot move
  /\ Blocked
  /\ script # << >> => script[Len(script)] # "W"
  /\ Does("W")
  /\ UNCHANGED <<shape, left, wpc, sig, stopped, late, got, cpc>>

Leave ==                                   \* only after a stop or the end
  /\ cpc = "idle"
  /\ stopped \/ wpc = "ended"
  /\ cpc' = "gone"
  /\ UNCHANGED <<shape, left, wpc, sig, stopped, late, got, script>>

CallerStep == Receive \/ ReceiveClosed \/ Stop \/ Close \/ Ask \/ Wait \/ Leave

Next == WalkerStep \/ CallerStep
Spec == Init /\ [][Next]_vars /\ WF_vars(WalkerStep) /\ WF_vars(ReceiveClosed)

----------------------------------------------------------------------------
(* C04: a breadth-first order without repetition, ended by the close. *)
Vertices == SelectSeq(got, LAMBDA v : v # 0)
EachOnce == \A i, j \in DOMAIN Vertices : i # j => Vertices[i] # Vertices[j]
BreadthFirst ==
  \A i, j \in DOMAIN Vertices : i < j => LayerOf(shape, Vertices[i]) <= LayerOf(shape, Vertices[j])
ClosedLast == \A i, j \in DOMAIN got : (i < j /\ got[i] = 0) => got[j] = 0
CompleteUnlessStopped == (wpc = "ended" /\ ~stopped) => left = {}
NearestFirst == \A v \in 1..Sum(shape) : v \in left \/ \E i \in DOMAIN got : got[i] = v

(* C05 *)
AtMostOneLate == late <= 1
NoLateAfterQuiescence ==     \* a stop while the walker is blocked is final
  \A i \in DOMAIN script :
    (i > 1 /\ script[i] \in {"S", "C"} /\ script[i - 1] = "W" /\ i < Len(script) /\ script[i + 1] = "W")
      => late = 0
StopEndsWalk == stopped ~> (wpc = "ended")
ReceiveReturns == (cpc = "recv") ~> (cpc # "recv")
============================================================================
