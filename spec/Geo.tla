-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Planar geometry over exact coordinates, in terms of coordinate order    *)
(* and point orientation only.  A point is <<x, y>>, a segment <<p, q>>, a *)
(* ring a sequence of points (its last edge closes it).                    *)
(***************************************************************************)
EXTENDS Arith, FiniteSets

PLt(p, q) == Lt(p[1], q[1]) \/ (p[1] = q[1] /\ Lt(p[2], q[2]))

Between(a, b, c) == (Le(a, b) /\ Le(b, c)) \/ (Le(c, b) /\ Le(b, a))

\* p lies on the closed segment s
On(s, p) == /\ Between(s[1][1], p[1], s[2][1])
            /\ Between(s[1][2], p[2], s[2][2])
            /\ Orient(s[1], s[2], p) = 0

\* p lies on s but is not one of its endpoints
InsideOf(s, p) == p # s[1] /\ p # s[2] /\ On(s, p)

MaxC(a, b) == IF Lt(a, b) THEN b ELSE a
MinC(a, b) == IF Lt(a, b) THEN a ELSE b

BoxesApart(s, t) ==
  \/ Lt(MaxC(s[1][1], s[2][1]), MinC(t[1][1], t[2][1]))
  \/ Lt(MaxC(t[1][1], t[2][1]), MinC(s[1][1], s[2][1]))
  \/ Lt(MaxC(s[1][2], s[2][2]), MinC(t[1][2], t[2][2]))
  \/ Lt(MaxC(t[1][2], t[2][2]), MinC(s[1][2], s[2][2]))

(***************************************************************************)
(* How two non-degenerate segments meet:                                   *)
(*   "disjoint"  no common point                                           *)
(*   "touch"     one common point, an endpoint of at least one of them     *)
(*   "cross"     one common point, interior to both                        *)
(*   "overlap"   a common sub-segment of positive length                   *)
(***************************************************************************)
Meet(s, t) ==
  IF BoxesApart(s, t) THEN "disjoint"
  ELSE LET o1 == Orient(s[1], s[2], t[1])
           o2 == Orient(s[1], s[2], t[2])
       IN IF o1 * o2 > 0 THEN "disjoint"
          ELSE IF o1 = 0 /\ o2 = 0
          THEN LET k == IF s[1][1] = s[2][1] THEN 2 ELSE 1
                   lo == MaxC(MinC(s[1][k], s[2][k]), MinC(t[1][k], t[2][k]))
                   hi == MinC(MaxC(s[1][k], s[2][k]), MaxC(t[1][k], t[2][k]))
               IN IF Lt(lo, hi) THEN "overlap"
                  ELSE IF lo = hi THEN "touch" ELSE "disjoint"
          ELSE LET o3 == Orient(t[1], t[2], s[1])
                   o4 == Orient(t[1], t[2], s[2])
               IN IF o3 * o4 > 0 THEN "disjoint"
                  ELSE IF o1 * o2 < 0 /\ o3 * o4 < 0 THEN "cross"
                  ELSE "touch"

Improper(s, t) == Meet(s, t) \in {"cross", "overlap"}

---------------------------------------------------------------------------
Nxt(v, i) == IF i = Len(v) THEN v[1] ELSE v[i + 1]
Prv(v, i) == IF i = 1 THEN v[Len(v)] ELSE v[i - 1]
RingEdge(v, i) == <<v[i], Nxt(v, i)>>
RingEdges(v) == [i \in 1..Len(v) |-> RingEdge(v, i)]
Flip(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
Range(f) == {f[i] : i \in DOMAIN f}
Distinct(f) == \A i, j \in DOMAIN f : i < j => f[i] # f[j]

\* the turn at every vertex of the ring
Turns(v) == [i \in 1..Len(v) |-> Orient(Prv(v, i), v[i], Nxt(v, i))]

Strict(v) == \A i \in 1..Len(v) : Orient(Prv(v, i), v[i], Nxt(v, i)) # 0

\* consecutive edges share their common vertex only, other edges nothing
Simple(v) ==
  LET n == Len(v) IN
  /\ Distinct(v)
  /\ \A i \in 1..n : \A j \in 1..(i - 1) :
       LET m == Meet(RingEdge(v, i), RingEdge(v, j))
       IN IF i - j = 1 \/ (j = 1 /\ i = n) THEN m = "touch" ELSE m = "disjoint"

\* index of the lexicographically least vertex
LeastIdx(v) == CHOOSE i \in 1..Len(v) :
                 \A j \in 1..Len(v) : j = i \/ ~ PLt(v[j], v[i])

\* orientation of a simple ring: the turn at its least vertex
RingTurn(v) == LET i == LeastIdx(v) IN Orient(Prv(v, i), v[i], Nxt(v, i))

(***************************************************************************)
(* Location of a point relative to the region of a simple ring:            *)
(* 1 inside, 0 on the boundary, -1 outside (even-odd ray casting).         *)
(***************************************************************************)
Locate(v, p) ==
  IF \E i \in 1..Len(v) : On(RingEdge(v, i), p) THEN 0
  ELSE LET hits == {i \in 1..Len(v) :
                      LET a == v[i]
                          b == Nxt(v, i)
                      IN /\ Lt(p[2], a[2]) # Lt(p[2], b[2])
                         /\ (Lt(a[2], b[2])) = (Orient(a, b, p) > 0)}
       IN IF Cardinality(hits) % 2 = 1 THEN 1 ELSE -1

(***************************************************************************)
(* q is seen from the boundary point t strictly to the left of the path    *)
(* a -> t -> b, i.e. the ray t -> q starts into the region on that side.   *)
(***************************************************************************)
IntoLeft(a, t, b, q) ==
  LET turn == Orient(a, t, b) IN
  IF turn > 0 THEN Orient(a, t, q) > 0 /\ Orient(t, b, q) > 0
  ELSE IF turn < 0 THEN Orient(a, t, q) > 0 \/ Orient(t, b, q) > 0
  ELSE Orient(a, t, q) > 0

(***************************************************************************)
(* Some point of the segment s lies strictly inside the region to the left *)
(* of the simple ring v (the region inside it when v is counterclockwise,  *)
(* the region outside it when v is clockwise).  side is 1 for the inside,  *)
(* -1 for the outside.  Complete: s meets that open region iff it properly *)
(* crosses an edge, or starts or ends in the region, or dives into it at a *)
(* point where it touches the boundary.                                    *)
(***************************************************************************)
DipsInto(s, v, side) ==
  LET n == Len(v) IN
  \/ \E i \in 1..n : Meet(s, RingEdge(v, i)) = "cross"
  \/ \E k \in 1..2 : Locate(v, s[k]) = side
  \/ \E i \in 1..n :
       \/ /\ On(s, v[i])                    \* s touches the boundary at v[i]
          /\ \E k \in 1..2 :
               s[k] # v[i] /\ IntoLeft(Prv(v, i), v[i], Nxt(v, i), s[k])
       \/ \E k \in 1..2 :                   \* s[k] is inside edge i
            /\ InsideOf(RingEdge(v, i), s[k])
            /\ Orient(v[i], Nxt(v, i), s[3 - k]) > 0

\* boundaries have at most isolated points in common and do not cross
BoundariesClear(ss, tt) ==
  \A i \in DOMAIN ss : \A j \in DOMAIN tt : ~ Improper(ss[i], tt[j])

\* interiors of two counterclockwise simple rings are disjoint
InteriorsDisjoint(v, w) ==
  /\ BoundariesClear(RingEdges(v), RingEdges(w))
  /\ \A i \in 1..Len(v) : ~ DipsInto(RingEdge(v, i), w, 1)
  /\ \A i \in 1..Len(w) : ~ DipsInto(RingEdge(w, i), v, 1)

\* the closed region of the ccw ring w is a part of that of the ccw ring v
Within(w, v) ==
  \A i \in 1..Len(w) : ~ DipsInto(RingEdge(w, i), Flip(v), -1)
=============================================================================
