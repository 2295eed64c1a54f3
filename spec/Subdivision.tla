---------------------------- MODULE Subdivision ----------------------------
(***************************************************************************)
(* The planar subdivision that contours are carved from, as a straight     *)
(* line graph: vertices are points, an edge is the set of its two ends,    *)
(* and the boundary is walked counterclockwise.                            *)
(*                                                                         *)
(* The operators are about a record g = [v |-> set of points,              *)
(* e |-> set of edges, w |-> boundary walk, a sequence of points].         *)
(***************************************************************************)
EXTENDS Geo

\* one of the two directions of an edge
AsSegment(e) == LET p == CHOOSE q \in e : TRUE
                IN <<p, CHOOSE q \in e : q # p>>

Neighbors(g, p) == {q \in g.v : {p, q} \in g.e}

Loops(g) == \A e \in g.e : Cardinality(e) = 2

\* edges meet at common vertices only, and no vertex lies inside an edge
Planar(g) ==
  LET s == [e \in g.e |-> AsSegment(e)] IN
  /\ \A e \in g.e : \A p \in g.v : ~ InsideOf(s[e], p)
  /\ \A e, f \in g.e :
       e = f \/ Meet(s[e], s[f]) = (IF e \cap f = {} THEN "disjoint"
                                    ELSE "touch")

\* q comes strictly between a and b when turning counterclockwise around p
\* (a # b); the full turn is meant when b = a
Turning(p, a, q, b) ==
  LET ab == Orient(p, a, b)
      aq == Orient(p, a, q)
      qb == Orient(p, q, b)
      opposite(c, d) == \* p is between c and d
        Orient(p, c, d) = 0 /\ InsideOf(<<c, d>>, p)
  IN IF a = b THEN q # a
     ELSE IF ab > 0 THEN aq > 0 /\ qb > 0
     ELSE IF ab < 0 THEN ~ (Orient(p, b, q) >= 0 /\ Orient(p, q, a) >= 0
                            /\ ~ (opposite(b, q) \/ opposite(q, a)))
     ELSE aq > 0                       \* a and b are on opposite sides of p

Next3(g, p, a) == \* the neighbour of p after a, counterclockwise
  CHOOSE b \in Neighbors(g, p) :
    /\ b # a \/ Neighbors(g, p) = {a}
    /\ \A q \in Neighbors(g, p) \ {a, b} : ~ Turning(p, a, q, b)

\* the boundary walk as directed edges
Steps(w) == {<<w[i], Nxt(w, i)>> : i \in DOMAIN w}

(***************************************************************************)
(* Inner faces are triangles.  For a connected planar graph that is the    *)
(* count below: the lengths of its faces sum up to twice the number of     *)
(* edges, there are |e| - |v| + 2 of them, and none but the outer one,     *)
(* which is as long as the walk, can be longer than 3.                     *)
(***************************************************************************)
Complete(g) == Cardinality(g.e) = 3 * Cardinality(g.v) - 3 - Len(g.w)

RECURSIVE Reach(_, _)
Reach(g, s) ==
  LET t == s \cup UNION {Neighbors(g, p) : p \in s}
  IN IF t = s THEN s ELSE Reach(g, t)

Connected(g) == g.v # {} /\ Reach(g, {CHOOSE p \in g.v : TRUE}) = g.v

\* the walk has the outer face on its right: at every vertex it turns into
\* the first edge met clockwise from where it came
WalkTurns(g) ==
  /\ \A i \in DOMAIN g.w : {g.w[i], Nxt(g.w, i)} \in g.e
  /\ \A i \in DOMAIN g.w :
       LET p == g.w[i] IN Next3(g, p, Prv(g.w, i)) = Nxt(g.w, i)

\* the edge p -> q has an empty triangle of edges on its left
Apexes(g, p, q) ==
  {u \in Neighbors(g, p) \cap Neighbors(g, q) :
     /\ Orient(p, q, u) > 0
     /\ \A x \in g.v \ {p, q, u} :
          ~ (/\ Orient(p, q, x) >= 0
             /\ Orient(q, u, x) >= 0
             /\ Orient(u, p, x) >= 0)}

Triangles(g) == \* counterclockwise, starting from the least vertex
  {t \in g.v \X g.v \X g.v :
     /\ {t[1], t[2]} \in g.e /\ PLt(t[1], t[2])
     /\ {t[1], t[3]} \in g.e /\ PLt(t[1], t[3])
     /\ t[3] \in Apexes(g, t[1], t[2])}

\* p lies strictly inside the circle through the counterclockwise a, b, c
\* (coordinates small enough for TLC's integers)
InCircle(a, b, c, p) ==
  LET ax == a[1] - p[1]
      ay == a[2] - p[2]
      bx == b[1] - p[1]
      by == b[2] - p[2]
      cx == c[1] - p[1]
      cy == c[2] - p[2]
      aa == ax * ax + ay * ay
      bb == bx * bx + by * by
      cc == cx * cx + cy * cy
  IN aa * (bx * cy - cx * by) - bb * (ax * cy - cx * ay)
     + cc * (ax * by - bx * ay) > 0

Delaunay(g) ==
  \A t \in Triangles(g) : \A p \in g.v \ {t[1], t[2], t[3]} :
    ~ InCircle(t[1], t[2], t[3], p)

\* the walk is the convex hull of the vertices, with all those on its sides
HullWalk(g) ==
  /\ Distinct(g.w)
  /\ \A i \in DOMAIN g.w : \A p \in g.v :
       /\ Orient(g.w[i], Nxt(g.w, i), p) >= 0
       /\ ~ InsideOf(<<g.w[i], Nxt(g.w, i)>>, p)

Flat(ps) == \A p, q, r \in ps : Orient(p, q, r) = 0

---------------------------------------------------------------------------
(* Steps of carving.                                                       *)

\* the edge of the walk from s to t is given up, its triangle with it
InsertAfter(w, i, u) == SubSeq(w, 1, i) \o <<u>> \o SubSeq(w, i + 1, Len(w))

Places(g, s, t) == {i \in DOMAIN g.w : g.w[i] = s /\ Nxt(g.w, i) = t}

Opened(g, s, t) ==
  {[v |-> g.v, e |-> g.e \ {{s, t}}, w |-> InsertAfter(g.w, i, u)] :
   i \in Places(g, s, t), u \in Apexes(g, s, t)}

\* opening it adds a vertex to the walk
Mouth(g, s, t) == \E u \in Apexes(g, s, t) : u \notin Range(g.w)

\* the triangle's other sides belong to the walk: s, t, u follow each other
Ear(g, s, t) ==
  \E i \in Places(g, s, t) :
    LET j == IF i = Len(g.w) THEN 1 ELSE i + 1
    IN Nxt(g.w, j) \in Apexes(g, s, t)

\* the edge to a vertex with no other is given up, and the vertex with it
Leaf(g, s, t) == Neighbors(g, s) = {t} \/ Neighbors(g, t) = {s}

RemoveAt(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))

\* the walk goes c, b, c around the vertex b
Plucked(g, s, t) ==
  {[v |-> g.v \ {b}, e |-> g.e \ {{s, t}},
    w |-> LET i == CHOOSE k \in DOMAIN g.w : g.w[k] = b
          IN IF i = Len(g.w) THEN SubSeq(g.w, 2, Len(g.w) - 1)
             ELSE RemoveAt(RemoveAt(g.w, i + 1), i)] :
   b \in {p \in {s, t} : Cardinality(Neighbors(g, p)) = 1}}

\* both at once: the tip of an ear is cut off
CutOff(g, s, t) == UNION {Plucked(h, t, Nxt(g.w, CHOOSE i \in DOMAIN g.w : g.w[i] = t)) : h \in Opened(g, s, t)}

\* the diagonal p - q of a strictly convex quadrilateral gives way to the other
Flipped(g, p, q) ==
  {[v |-> g.v, e |-> (g.e \ {{p, q}}) \cup {{a, b}}, w |-> g.w] :
   <<a, b>> \in {c \in Apexes(g, p, q) \X Apexes(g, q, p) :
                 /\ Orient(c[2], q, c[1]) > 0
                 /\ Orient(c[1], p, c[2]) > 0}}

---------------------------------------------------------------------------
(* What compressing a walk comes to: the transcription of the two passes   *)
(* over the vertices that give up those on a straight line with their      *)
(* neighbours.  Indices are those of the code: negative from the end.      *)

At(w, k) == IF k >= 0 THEN w[k + 1] ELSE w[Len(w) + k + 1]
DropAt(w, k) ==
  LET i == IF k >= 0 THEN k + 1 ELSE Len(w) + k + 1
  IN SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))

RECURSIVE CompressBack(_, _)
CompressBack(w, k) ==
  IF k >= 0 THEN w
  ELSE IF MaxI(2, -k) < Len(w)
          /\ Orient(At(w, k + 1), At(w, k + 2), At(w, k)) = 0
  THEN CompressBack(DropAt(w, k + 1), k)
  ELSE CompressBack(w, k + 1)

RECURSIVE CompressOn(_, _)
CompressOn(w, k) ==
  IF k >= Len(w) THEN w
  ELSE IF MaxI(2, k) < Len(w)
          /\ Orient(At(w, k - 1), At(w, k - 2), At(w, k)) = 0
  THEN CompressOn(DropAt(w, k - 1), k)
  ELSE CompressOn(w, k + 1)

Compress(w) == CompressOn(CompressBack(w, 1 - Len(w)), 0)

ProperRing(r) == Len(r) >= 3 /\ Strict(r) /\ Simple(r) /\ RingTurn(r) = 1
=============================================================================
