------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* What a caller can ask of hypothesis_geometry.planar, and what each      *)
(* request means.  A request is a record                                   *)
(*     [kind |-> k, sizes |-> << <<lo, hi>>, ... >>, x |-> _, y |-> _,     *)
(*      ctx |-> _]                                                         *)
(* whose i-th pair is the value given to the i-th (min, max) parameter     *)
(* pair of the function k; hi = NoMax stands for None.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoMax == 1000000

Kinds == {"empty_geometries", "points", "multipoints", "segments",
          "multisegments", "contours", "convex_contours",
          "concave_contours", "triangular_contours",
          "rectangular_contours", "boxes", "star_contours",
          "multicontours", "polygons", "multipolygons", "mixes"}

\* <<name of the lower bound, name of the upper bound, least meaningful size>>
Pairs(kind) ==
  CASE kind = "multipoints" -> << <<"min_size", "max_size", 1>> >>
    [] kind = "multisegments" -> << <<"min_size", "max_size", 2>> >>
    [] kind \in {"contours", "convex_contours", "star_contours"} ->
         << <<"min_size", "max_size", 3>> >>
    [] kind = "concave_contours" -> << <<"min_size", "max_size", 4>> >>
    [] kind = "multicontours" ->
         << <<"min_size", "max_size", 2>>,
            <<"min_contour_size", "max_contour_size", 3>> >>
    [] kind = "polygons" ->
         << <<"min_size", "max_size", 3>>,
            <<"min_holes_size", "max_holes_size", 0>>,
            <<"min_hole_size", "max_hole_size", 3>> >>
    [] kind = "multipolygons" ->
         << <<"min_size", "max_size", 2>>,
            <<"min_border_size", "max_border_size", 3>>,
            <<"min_holes_size", "max_holes_size", 0>>,
            <<"min_hole_size", "max_hole_size", 3>> >>
    [] kind = "mixes" ->
         << <<"min_points_size", "max_points_size", 0>>,
            <<"min_segments_size", "max_segments_size", 0>>,
            <<"min_polygons_size", "max_polygons_size", 0>>,
            <<"min_polygon_border_size", "max_polygon_border_size", 3>>,
            <<"min_polygon_holes_size", "max_polygon_holes_size", 0>>,
            <<"min_polygon_hole_size", "max_polygon_hole_size", 3>> >>
    [] OTHER -> <<>>

Sized == {k \in Kinds : Pairs(k) # <<>>}

Larger(a, b) == IF a > b THEN a ELSE b

---------------------------------------------------------------------------
(* Validation.  The pairs are examined in order; the first broken one      *)
(* decides the error, every lower bound below the least meaningful size    *)
(* before that is reported by one warning and raised to it.                *)

\* "" when the pair is fine, else the name of the parameter at fault
Fault(pair, lo, hi) ==
  IF hi = NoMax THEN ""
  ELSE IF hi < pair[3] THEN pair[2]
  ELSE IF lo > hi \/ lo < 0 THEN pair[1]
  ELSE ""

Faults(req) ==
  LET ps == Pairs(req.kind)
  IN [i \in DOMAIN ps |-> Fault(ps[i], req.sizes[i][1], req.sizes[i][2])]

FirstFault(req) ==
  LET f == Faults(req)
  IN IF \E i \in DOMAIN f : f[i] # ""
     THEN CHOOSE i \in DOMAIN f : f[i] # "" /\ \A j \in 1..(i - 1) : f[j] = ""
     ELSE 0

\* a mix must be able to have two kinds of components
TooFewComponents(req) ==
  /\ req.kind = "mixes"
  /\ Len(SelectSeq(SubSeq(req.sizes, 1, 3), LAMBDA p : p[2] # 0)) < 2

Error(req) ==
  IF FirstFault(req) # 0 THEN Faults(req)[FirstFault(req)]
  ELSE IF TooFewComponents(req) THEN "components"
  ELSE ""

\* names of the lower bounds that are warned about, in order
Warned(req) ==
  LET ps == Pairs(req.kind)
      last == IF FirstFault(req) = 0 THEN Len(ps) ELSE FirstFault(req) - 1
      low == SelectSeq([i \in 1..last |-> i],
                       LAMBDA i : req.sizes[i][1] < ps[i][3])
  IN [j \in DOMAIN low |-> ps[low[j]][1]]

\* the bounds that generated values have to respect
Effective(req) ==
  LET ps == Pairs(req.kind)
  IN [i \in DOMAIN ps |-> <<Larger(req.sizes[i][1], ps[i][3]),
                            req.sizes[i][2]>>]

\* The request another one amounts to.  x, y and ctx name the coordinate
\* strategies and the context handed in; y = 0 means it was left out.
Normal(req) ==
  [req EXCEPT !.sizes = Effective(req),
              !.y = IF req.y = 0 THEN req.x ELSE req.y]

Fits(n, bound) == bound[1] <= n /\ n <= bound[2]

---------------------------------------------------------------------------
(* The least number of vertices a value of the request can have; a domain  *)
(* with at least Ample(req) distinct coordinates per axis can serve it.    *)
LeastVertices(req) ==
  LET s == Effective(req) IN
  CASE req.kind = "points" -> 1
    [] req.kind = "segments" -> 2
    [] req.kind = "triangular_contours" -> 3
    [] req.kind \in {"rectangular_contours", "boxes"} -> 4
    [] req.kind = "multipoints" -> s[1][1]
    [] req.kind = "multisegments" -> 2 * s[1][1]
    [] req.kind \in {"contours", "convex_contours", "star_contours",
                     "concave_contours"} -> s[1][1]
    [] req.kind = "multicontours" -> s[1][1] * s[2][1]
    [] req.kind = "polygons" -> s[1][1] + s[2][1] * s[3][1]
    [] req.kind = "multipolygons" -> s[1][1] * (s[2][1] + s[3][1] * s[4][1])
    [] req.kind = "mixes" ->
         Larger(s[1][1], 1) + 2 * Larger(s[2][1], 1)
         + Larger(s[3][1], 1) * (s[4][1] + s[5][1] * s[6][1])
    [] OTHER -> 0

Ample(req) == 2 * LeastVertices(req)
=============================================================================
