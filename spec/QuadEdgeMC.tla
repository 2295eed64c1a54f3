----------------------------- MODULE QuadEdgeMC -----------------------------
(***************************************************************************)
(* All structures made by up to MaxOps operations with up to MaxEdges      *)
(* edges.  Edges are connected within a face, joined at loose ends and     *)
(* flipped the way the library does, so that the axioms, the genus and the *)
(* origins are kept; splicing and deleting are inverse to joining.         *)
(*                                                                         *)
(* Record writes every transition out as a line                            *)
(*   ROW {path: operations up to the state, op: operation, next, org}      *)
(* to be replayed on the library's own class.                              *)
(***************************************************************************)
EXTENDS QuadEdge, TLC, TLCExt, Json

CONSTANTS MaxEdges, MaxOps, MoreEdges, MoreOps, Slip

VARIABLES s, path, left

vars == <<s, path, left>>
View == <<s, left>>

Do(op, after) ==
  /\ s' = after
  /\ path' = Append(path, op)
  /\ left' = left - 1

Op(name, a, b) == [op |-> name, a |-> a, b |-> b]

Applied(t, o) ==
  CASE o.op = "make" -> Made(t, o.a, o.b)
    [] o.op = "connect" -> Connected(t, o.a, o.b)
    [] o.op = "delete" -> Deleted(t, o.a)
    [] o.op = "flip" -> FlippedEdge(t, o.a)
    [] o.op = "splice" -> Spliced(t, o.a, o.b)

RECURSIVE Run(_, _)
Run(t, ops) == IF ops = <<>> THEN t ELSE Run(Applied(t, Head(ops)), Tail(ops))

\* two triangles with a common side, edge 4 (darts 16..19)
Quadrilateral ==
  <<Op("make", 0, 1), Op("make", 2, 3), Op("connect", 0, 4),
    Op("connect", 4, 0), Op("connect", 8, 0)>>

Init == \/ /\ s = Empty
           /\ path = <<>>
           /\ left = MaxOps
        \/ /\ s = Run(Empty, Quadrilateral)
           /\ path = Quadrilateral
           /\ left = MoreOps

Limit == IF Len(path) + left = MaxOps THEN MaxEdges ELSE MoreEdges

\* loose edges have points of their own, numbered
Make == /\ s.n < Limit
        /\ Do(Op("make", 2 * s.n, 2 * s.n + 1),
              Made(s, 2 * s.n, 2 * s.n + 1))

SameFace(a, b) == b \in Orbit(LeftNext(s), a)

Connect == \E a, b \in Primal(s) :
  /\ s.n < Limit
  /\ SameFace(a, b)
  /\ b # a
  /\ b # LeftFromEnd(s, a)
  /\ Do(Op("connect", a, b), Connected(s, a, b))

Separate(a, b) == ~ \E c \in Components(s) : {a, b} \subseteq c

\* joining two components: by a new edge
Bridge == \E a, b \in Primal(s) :
  /\ s.n < Limit
  /\ Separate(a, b)
  /\ Do(Op("connect", a, b), Connected(s, a, b))

Delete == \E a \in Primal(s) :
  /\ Do(Op("delete", a, 0), Deleted(s, a))

\* the diagonal of a quadrilateral: triangles on both sides
IsDiagonal(a) ==
  /\ Cardinality(Orbit(LeftNext(s), a)) = 3
  /\ Cardinality(Orbit(LeftNext(s), Sym(a))) = 3
  /\ ~ SameFace(a, Sym(a))

FlipEdge == \E a \in Primal(s) :
  /\ (Slip \/ IsDiagonal(a))
  /\ Do(Op("flip", a, 0), FlippedEdge(s, a))

Next_ == left > 0 /\ (Make \/ Connect \/ Bridge \/ Delete \/ FlipEdge)

Spec == Init /\ [][Next_]_vars

Flat(f) == [i \in 1..Cardinality(DOMAIN f) |->
              f[CHOOSE d \in DOMAIN f :
                  Cardinality({c \in DOMAIN f : c < d}) = i - 1]]

\* an action constraint that writes every transition out
Record ==
  PrintT("ROW " \o ToJson(
    [path |-> path, op |-> path'[Len(path')],
     next |-> Flat(s'.next), org |-> Flat(s'.org)]))

---------------------------------------------------------------------------
Kept == Algebra(s) /\ Plane(s) /\ Rooted(s)

\* splicing twice changes nothing; a deleted edge is alone
Involution == \A a, b \in Primal(s) : Spliced(Spliced(s, a, b), a, b) = s

Alone == \A a \in Primal(s) :
  LET t == Deleted(s, a) IN t.next[a] = a /\ t.next[Sym(a)] = Sym(a)

\* flipping a diagonal four times gives the edge back its place and ends
FourFlips ==
  \A a \in Primal(s) :
    IsDiagonal(a) =>
      LET t2 == FlippedEdge(FlippedEdge(s, a), a)
          t4 == FlippedEdge(FlippedEdge(t2, a), a)
      IN /\ t2.org[a] = s.org[Sym(a)] /\ t2.org[Sym(a)] = s.org[a]
         /\ t4 = s
=============================================================================
