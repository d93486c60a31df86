------------------------------ MODULE EtxTrip ------------------------------
(***************************************************************************)
(* Texts a and what the real formatter made of them, b, recorded by the    *)
(* harness: b is a document with the meaning of a.  Every record is a      *)
(* state; records are checked in Lanes lanes.                              *)
(***************************************************************************)
EXTENDS EtxDoc, IOUtils

CONSTANT Lanes
Rec == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE k
Init == k \in {j \in 1..Lanes : j <= Len(Rec)}
Next == k + Lanes <= Len(Rec) /\ k' = k + Lanes
Spec == Init /\ [][Next]_k

SameMeaning(a, b) ==
  LET da == Doc(a)
      db == Doc(b)
  IN da.ok /\ db.ok /\ ToJson(M(da.tree)) = ToJson(M(db.tree))

Check == SameMeaning(Rec[k].a, Rec[k].b) \/ PrintT("@B " \o ToString(k))
=============================================================================
