---------------------------- MODULE WalkerTrace ----------------------------
(***************************************************************************)
(* Walks recorded from the real code are behaviours of Walker.  A record   *)
(* is [shape, events]; an event is [op, v], v being the received vertex    *)
(* (0: channel closed).  The walker's own steps are not logged.            *)
(***************************************************************************)
EXTENDS MCWalker, Json, IOUtils, TLCExt

VARIABLES l, i
tvars == <<vars, l, i>>

Log == ndJsonDeserialize(IOEnv.TRACE)

Ev == Log[l].events[i]
Is(op) == l <= Len(Log) /\ i <= Len(Log[l].events) /\ Ev.op = op /\ i' = i + 1 /\ l' = l

Fresh(k) ==
  /\ shape' = Log[k].shape
  /\ left' = 1..Sum(Log[k].shape)
  /\ wpc' = "poll" /\ sig' = "none" /\ stopped' = FALSE /\ late' = 0
  /\ got' = << >> /\ cpc' = "idle" /\ script' = << >>

TInit ==
  /\ l = 1 /\ i = 1
  /\ shape = Log[1].shape
  /\ left = 1..Sum(Log[1].shape)
  /\ wpc = "poll" /\ sig = "none" /\ stopped = FALSE /\ late = 0
  /\ got = << >> /\ cpc = "idle" /\ script = << >>

Silent == (Finish \/ TakeStop \/ Offer) /\ UNCHANGED <<l, i>>

\* Receiving is two steps of Walker: the call, then the rendezvous.
TCall    == l <= Len(Log) /\ i <= Len(Log[l].events) /\ Ev.op = "R" /\ Receive /\ UNCHANGED <<l, i>>
TReceive == Is("R") /\ IF Ev.v = 0 THEN ReceiveClosed ELSE Ev.v \in left /\ Deliver(Ev.v)
TOther   == \/ Is("S") /\ Stop
            \/ Is("C") /\ Close
            \/ Is("A") /\ Ask
            \/ Is("W") /\ Wait
\* The goroutine of every recorded walk has ended.
TNextRecord ==
  /\ l <= Len(Log) /\ i = Len(Log[l].events) + 1
  /\ wpc = "ended"
  /\ l' = l + 1 /\ i' = 1
  /\ IF l < Len(Log) THEN Fresh(l + 1) ELSE UNCHANGED vars

TNext == Silent \/ TCall \/ TReceive \/ TOther \/ TNextRecord
TSpec == TInit /\ [][TNext]_tvars

Reached == TLCSet(7, IF TLCGet(7) < l THEN l ELSE TLCGet(7))
ASSUME TLCSet(7, 0)
Accepted ==
  LET d == TLCGet(7) - 1 IN
  PrintT("@T " \o ToJson([matched |-> d, len |-> Len(Log)])) /\ d = Len(Log)
============================================================================
