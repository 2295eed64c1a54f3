-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Values as a caller who changes them sees them.  A value owns some       *)
(* mutable containers (lists of points, vertices, segments, contours,      *)
(* holes, polygons); the library hands out new containers with every       *)
(* value, within a value as well, and keeps none of them.                  *)
(*                                                                         *)
(*   heap    container -> its items                                        *)
(*   roots   value -> its containers, in the order they are met            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES heap, roots

heapVars == <<heap, roots>>

HeapInit == heap = <<>> /\ roots = <<>>

View(w) == [k \in DOMAIN roots[w] |-> heap[roots[w][k]]]

Entries(s) == {s[i] : i \in DOMAIN s}

Within(ids) == Cardinality(Entries(ids)) < Len(ids)
Between(ids) == Entries(ids) \cap DOMAIN heap # {}

Receive(w, ids, items) ==
  /\ w \notin DOMAIN roots
  /\ roots' = (w :> ids) @@ roots
  /\ heap' = [i \in Entries(ids) |->
                items[CHOOSE k \in DOMAIN ids : ids[k] = i]] @@ heap

Change(w, k, items) ==
  /\ heap' = [heap EXCEPT ![roots[w][k]] = items]
  /\ UNCHANGED roots

Release == heap' = <<>> /\ roots' = <<>>
=============================================================================
