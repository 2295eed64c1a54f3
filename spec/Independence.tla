---------------------------- MODULE Independence ----------------------------
(***************************************************************************)
(* Why new containers are what it takes: TLC explores all sessions of a    *)
(* few values with a few containers.  With Fresh = FALSE containers may be *)
(* shared and the property fails.                                          *)
(***************************************************************************)
EXTENDS Heap

CONSTANTS Containers, Values, Items, Most, Fresh

VARIABLE touched   \* the value changed last

vars == <<heap, roots, touched>>

IdLists == UNION {[1..n -> Containers] : n \in 0..Most}

Init == HeapInit /\ touched = 0

Next ==
  \/ \E w \in Values, ids \in IdLists :
       /\ w \notin DOMAIN roots
       /\ Fresh => ~ Within(ids) /\ ~ Between(ids)
       /\ \E items \in [DOMAIN ids -> Items] :
            /\ roots' = (w :> ids) @@ roots
            /\ heap' = heap @@ [i \in Entries(ids) |->
                          items[CHOOSE k \in DOMAIN ids : ids[k] = i]]
       /\ touched' = 0
  \/ \E w \in DOMAIN roots : \E k \in DOMAIN roots[w], item \in Items :
       Change(w, k, item) /\ touched' = w

Spec == Init /\ [][Next]_vars

\* changing one container of a value changes nothing else that anyone sees
Isolated ==
  [][\A w \in DOMAIN roots : \A k \in DOMAIN roots[w] :
       (touched' = 0 \/ w # touched') => View(w)[k] = View(w)'[k]]_vars

OneAtATime ==
  [][\A w \in DOMAIN roots :
       Cardinality({k \in DOMAIN roots[w] : View(w)[k] # View(w)'[k]}) <= 1]_vars
=============================================================================
