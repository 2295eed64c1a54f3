------------------------------ MODULE MeshTrace ------------------------------
(***************************************************************************)
(* C16: triangulations the library made and steps of carving them are      *)
(* those of Subdivision.tla.                                               *)
(*                                                                         *)
(* A recorded state has the stars of all vertices, [p, <<neighbours in     *)
(* counterclockwise order>>], and the walk around the boundary.            *)
(***************************************************************************)
EXTENDS Subdivision, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l

If(bad, name) == IF bad THEN {name} ELSE {}

Report(faults) ==
  IF faults = {} THEN TRUE
  ELSE PrintT("FAULT " \o ToString(l) \o " " \o ToString(faults))

Graph(s) ==
  [v |-> {s.stars[i][1] : i \in DOMAIN s.stars},
   e |-> {{s.stars[i][1], s.stars[i][2][j]} :
          <<i, j>> \in {<<a, b>> \in (DOMAIN s.stars) \X (1..30) :
                        b \in DOMAIN s.stars[a][2]}},
   w |-> s.walk]

StarsFaults(s, g) ==
  LET n == Len(s.stars) IN
  If(\E i, j \in 1..n : i < j /\ s.stars[i][1] = s.stars[j][1],
     "vertex-in-two-pieces")
  \cup If(\E i \in 1..n : ~ Distinct(s.stars[i][2]), "double-edge")
  \cup If(\E i \in 1..n : \E j \in DOMAIN s.stars[i][2] :
            s.stars[i][2][j] \notin g.v, "edge-to-nowhere")

\* the order of edges around a vertex is that of their directions
OrderFaults(s, g) ==
  If(\E i \in DOMAIN s.stars :
       LET p == s.stars[i][1]
           qs == s.stars[i][2]
       IN Len(qs) >= 3 /\ \E j \in DOMAIN qs : Next3(g, p, qs[j]) # Nxt(qs, j),
     "edges-out-of-order")

ShapeFaults(s, g) ==
  LET f == StarsFaults(s, g) \cup If(~ Loops(g), "loop") IN
  IF f # {} THEN f
  ELSE IF ~ Planar(g) THEN {"edges-cross"}
  ELSE OrderFaults(s, g)
       \cup If(~ Complete(g), "not-triangles")
       \cup If(~ WalkTurns(g), "boundary-walk")
       \* the right links are made: all vertices are reached from one
       \cup If(~ Connected(g), "not-connected")

Points(e) == {e.pts[i] : i \in DOMAIN e.pts}

DelaunayFaults(e) ==
  LET g == Graph(e.post)
      f == If(g.v # Points(e), "points-lost") \cup ShapeFaults(e.post, g)
  IN IF f # {} THEN f
     ELSE If(~ HullWalk(g), "boundary-is-not-the-hull")
          \cup If(~ Delaunay(g), "point-in-circle")

\* compared as graphs and walks; the walk may start anywhere
SameWalk(w, x) ==
  Len(w) = Len(x) /\
  \E k \in 0..(Len(w) - 1) :
    \A i \in DOMAIN w : w[i] = x[((i + k - 1) % Len(w)) + 1]

Among(g, hs) ==
  \E h \in hs : h.v = g.v /\ h.e = g.e /\ SameWalk(h.w, g.w)

StepFaults(e) ==
  LET g == Graph(e.pre)
      h == Graph(e.post)
      p == e.edge[1]
      q == e.edge[2]
      f == ShapeFaults(e.post, h)
  IN f \cup
     IF e.op = "flip"
     THEN If(~ Among(h, Flipped(g, p, q)), "not-a-flip")
     ELSE IF Leaf(g, p, q)
     THEN If(~ Among(h, Plucked(g, p, q)), "not-plucked")
     ELSE If(~ (Mouth(g, p, q) \/ Ear(g, p, q)), "neither-mouth-nor-ear")
          \cup If(~ Among(h, Opened(g, p, q)), "not-opened")

\* the edge taken away is named by one of its ends, whichever comes first
Directed(e) ==
  IF e.op = "flip" \/ Places(Graph(e.pre), e.edge[1], e.edge[2]) # {} THEN e
  ELSE [e EXCEPT !.edge = <<e.edge[2], e.edge[1]>>]

Init == l = 1

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     Report(CASE e.op = "step" -> {e.wrong[i] : i \in DOMAIN e.wrong}
              [] e.op = "delaunay" -> DelaunayFaults(e)
              [] OTHER -> StepFaults(Directed(e)))

TraceSpec == Init /\ [][Next]_l

TraceAccepted ==
  PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1)
         \o " OF " \o ToString(Len(Trace)))
=============================================================================
