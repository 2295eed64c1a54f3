------------------------------- MODULE Carve -------------------------------
(***************************************************************************)
(* Carving a contour from a triangulation: any number of mouths opened and *)
(* diagonals flipped in any order, then ears cut and diagonals flipped, as *)
(* the library's greedy choices are one of these runs.  Every run starts   *)
(* from every triangulation of every set of points of a small grid (the    *)
(* one picked in Init and all that flips lead to).                         *)
(***************************************************************************)
EXTENDS Subdivision

CONSTANTS Columns, Rows, MinPoints, MaxPoints,
          Careful  \* FALSE: any boundary edge is opened, to see it fail

VARIABLES g, phase

Grid == (0..(Columns - 1)) \X (0..(Rows - 1))

\* edges one after another, as long as they fit
RECURSIVE Greedy(_, _, _)
Greedy(v, left, e) ==
  IF left = {} THEN e
  ELSE LET f == CHOOSE x \in left : TRUE
           s == AsSegment(f)
           fits == /\ \A p \in v : ~ InsideOf(s, p)
                   /\ \A d \in e : Meet(s, AsSegment(d)) # "cross"
       IN Greedy(v, left \ {f}, IF fits THEN e \cup {f} ELSE e)

\* hull vertices from p on, counterclockwise, with those on the sides
RECURSIVE HullFrom(_, _, _)
HullFrom(v, p, w) ==
  LET q == CHOOSE x \in v \ {p} :
             \A y \in v \ {p, x} :
               \/ Orient(p, x, y) > 0
               \/ Orient(p, x, y) = 0 /\ ~ InsideOf(<<p, x>>, y)
  IN IF q = w[1] THEN w ELSE HullFrom(v, q, Append(w, q))

Least(v) == CHOOSE p \in v : \A q \in v \ {p} : PLt(p, q)

Init ==
  /\ phase = "mouths"
  /\ \E v \in SUBSET Grid :
       /\ Cardinality(v) \in MinPoints..MaxPoints
       /\ ~ Flat(v)
       /\ g = [v |-> v,
               e |-> Greedy(v, {{p, q} : p, q \in v} \ {{p} : p \in v}, {}),
               w |-> HullFrom(v, Least(v), <<Least(v)>>)]

OpenMouth ==
  /\ phase = "mouths"
  /\ \E d \in Steps(g.w) :
       /\ Careful => Mouth(g, d[1], d[2])
       /\ g' \in Opened(g, d[1], d[2])
  /\ UNCHANGED phase

FlipDiagonal ==
  /\ \E e \in g.e : LET s == AsSegment(e) IN g' \in Flipped(g, s[1], s[2])
  /\ UNCHANGED phase

StartEars ==
  /\ phase = "mouths"
  /\ phase' = "ears"
  /\ UNCHANGED g

CutEar ==
  /\ phase = "ears"
  /\ \E d \in Steps(g.w) :
       /\ Ear(g, d[1], d[2])
       /\ Cardinality(g.e) - Cardinality(g.v) >= 1  \* a triangle is left
       /\ g' \in CutOff(g, d[1], d[2])
  /\ UNCHANGED phase

Next == OpenMouth \/ FlipDiagonal \/ StartEars \/ CutEar

Spec == Init /\ [][Next]_<<g, phase>>

---------------------------------------------------------------------------
SubdivisionKept ==
  /\ Loops(g) /\ Planar(g) /\ Connected(g) /\ Complete(g) /\ WalkTurns(g)

\* the walk is a simple polygon
WalkSimple == Distinct(g.w)

BorderProper == ProperRing(Compress(g.w))

\* all points stay in the closed region of the border while none is cut off
PointsWithin ==
  phase = "mouths" => \A p \in g.v : Locate(Compress(g.w), p) >= 0

\* on the border there are at most all of the points
BorderDrawn == Range(Compress(g.w)) \subseteq g.v
=============================================================================
