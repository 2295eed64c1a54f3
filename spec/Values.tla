------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The contract of a generated value, as sets of clauses it breaks.        *)
(*                                                                         *)
(* A value is the record of its parts, whatever its kind:                  *)
(*   pt  points            seg  segments <<p, q>>                          *)
(*   rng contours          pol  polygons [b |-> border, h |-> holes]       *)
(*   box <<>> or << <<min_x, max_x>>, <<min_y, max_y>> >>                  *)
(*   cls class names, in the order given in Requests/ClassNames            *)
(* Every operator below maps a request and a value to the set of names of  *)
(* the clauses that fail; the empty set means the contract is met.         *)
(***************************************************************************)
EXTENDS Geo, Requests, TLC

If(bad, name) == IF bad THEN {name} ELSE {}

Rings(v) == v.rng
Borders(v) == [i \in DOMAIN v.pol |-> v.pol[i].b]
HolesOf(v) == UNION {Range(v.pol[i].h) : i \in DOMAIN v.pol}
OuterRings(v) == Range(v.rng) \cup Range(Borders(v))

---------------------------------------------------------------------------
(* C01: every contour bounds a proper region.                              *)

RingFaults(r, turn) ==
  IF Len(r) < 3 THEN {"fewer-than-3-vertices"}
  ELSE IF ~ Distinct(r) THEN {"repeated-vertex"}
  ELSE LET t == If(~ Strict(r), "straight-angle")
             \cup If(~ Simple(r), "self-contact")
       IN t \cup If(t = {} /\ RingTurn(r) # turn, "wrong-direction")

WellFormed(r) == RingFaults(r, 1) = {}

RegionFaults(v) ==
  UNION {RingFaults(r, 1) : r \in OuterRings(v)}
  \cup UNION {{"hole-" \o f : f \in RingFaults(r, -1) \ {"wrong-direction"}}
              : r \in HolesOf(v)}

---------------------------------------------------------------------------
(* C02: special shapes.                                                    *)

ConvexFaults(r) == If(\E i \in DOMAIN r : Turns(r)[i] <= 0, "reflex-vertex")
ConcaveFaults(r) == If(\A i \in DOMAIN r : Turns(r)[i] >= 0, "no-reflex-vertex")

\* an axis-parallel edge of a rectangle changes exactly one coordinate
AxisParallel(p, q) == (p[1] = q[1]) # (p[2] = q[2])

RectangleFaults(r) ==
  If(Len(r) # 4, "not-4-vertices")
  \cup If(\E i \in DOMAIN r : ~ AxisParallel(r[i], Nxt(r, i)), "not-axis-aligned")

(***************************************************************************)
(* Star contours: every vertex is visible from the centroid of the region. *)
(* For a simple counterclockwise ring this is: the centroid is on no edge's*)
(* right side.  With o the first vertex, a = 2 * area and                  *)
(* c = 6 * area * (centroid - o), the side of the edge p -> q on which the *)
(* centroid lies is the sign of                                            *)
(*    (q - p) x (c - 3a (p - o)).                                          *)
(* The products exceed 32 bits, so they are taken in limbs.                *)
(***************************************************************************)
RECURSIVE LSumTo(_, _)
LSumTo(f, i) == IF i = 0 THEN <<0>> ELSE LAdd(f[i], LSumTo(f, i - 1))
LSum(f) == LSumTo(f, Len(f))

VisibleInLimbs(r) ==
  LET n == Len(r)
      o == r[1]
      d == [i \in 1..n |-> <<LSub(Limbs(r[i][1]), Limbs(o[1])),
                             LSub(Limbs(r[i][2]), Limbs(o[2]))>>]
      x == [i \in 1..n |-> LSub(LMul(d[i][1], Nxt(d, i)[2]),
                                LMul(d[i][2], Nxt(d, i)[1]))]
      a == LSum(x)
      a3 == LMul(a, ToLimbs(3))
      c == [k \in 1..2 |->
              LSum([i \in 1..n |-> LMul(LAdd(d[i][k], Nxt(d, i)[k]), x[i])])]
  IN \A i \in 1..n :
       LET p == d[i]
           q == Nxt(d, i)
       IN LCmp(LMul(LSub(q[1], p[1]), LSub(c[2], LMul(a3, p[2]))),
               LMul(LSub(q[2], p[2]), LSub(c[1], LMul(a3, p[1])))) >= 0

\* the same in plain integers, for rings small enough to stay below 2^31
RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Sum(f) == SumTo(f, Len(f))

VisibleInInts(r) ==
  LET n == Len(r)
      o == r[1]
      d == [i \in 1..n |-> <<r[i][1] - o[1], r[i][2] - o[2]>>]
      x == [i \in 1..n |-> d[i][1] * Nxt(d, i)[2] - d[i][2] * Nxt(d, i)[1]]
      a3 == 3 * Sum(x)
      c == [k \in 1..2 |-> Sum([i \in 1..n |-> (d[i][k] + Nxt(d, i)[k]) * x[i]])]
  IN \A i \in 1..n :
       LET p == d[i]
           q == Nxt(d, i)
       IN (q[1] - p[1]) * (c[2] - a3 * p[2]) >= (q[2] - p[2]) * (c[1] - a3 * p[1])

\* all terms are below 20 n m^4 for n vertices within a square of side m
SmallRing(r) ==
  /\ ~ Wide
  /\ LET m == IF Len(r) <= 8 THEN 60 ELSE 40
     IN Len(r) <= 40 /\ \A i \in DOMAIN r : \A k \in 1..2 :
          r[i][k] - r[1][k] \in (-m)..m

VisibleFromCentroid(r) ==
  IF SmallRing(r) THEN VisibleInInts(r) ELSE VisibleInLimbs(r)

ShapeFaults(req, v) ==
  IF \E i \in DOMAIN v.rng : ~ WellFormed(v.rng[i])
  THEN IF req.kind \in {"convex_contours", "concave_contours", "star_contours",
                        "triangular_contours", "rectangular_contours"}
       THEN {"not-a-region"} ELSE {}
  ELSE CASE req.kind = "convex_contours" -> ConvexFaults(v.rng[1])
         [] req.kind = "concave_contours" -> ConcaveFaults(v.rng[1])
         [] req.kind = "triangular_contours" ->
              If(Len(v.rng[1]) # 3, "not-3-vertices")
         [] req.kind = "rectangular_contours" -> RectangleFaults(v.rng[1])
         [] req.kind = "star_contours" ->
              If(~ VisibleFromCentroid(v.rng[1]), "vertex-hidden-from-centroid")
         [] OTHER -> {}

---------------------------------------------------------------------------
(* C03: every count is within the bounds asked for.                        *)

Outside(n, bound, name) == If(~ Fits(n, bound), name)

PolygonSizeFaults(p, border, holes, hole) ==
  Outside(Len(p.b), border, "border-size")
  \cup Outside(Len(p.h), holes, "holes-count")
  \cup UNION {Outside(Len(p.h[i]), hole, "hole-size") : i \in DOMAIN p.h}

SizeFaults(req, v) ==
  LET s == Effective(req) IN
  CASE req.kind = "multipoints" -> Outside(Len(v.pt), s[1], "points-count")
    [] req.kind = "multisegments" -> Outside(Len(v.seg), s[1], "segments-count")
    [] req.kind \in {"contours", "convex_contours", "concave_contours",
                     "star_contours"} ->
         Outside(Len(v.rng[1]), s[1], "contour-size")
    [] req.kind = "multicontours" ->
         Outside(Len(v.rng), s[1], "contours-count")
         \cup UNION {Outside(Len(v.rng[i]), s[2], "contour-size")
                     : i \in DOMAIN v.rng}
    [] req.kind = "polygons" -> PolygonSizeFaults(v.pol[1], s[1], s[2], s[3])
    [] req.kind = "multipolygons" ->
         Outside(Len(v.pol), s[1], "polygons-count")
         \cup UNION {PolygonSizeFaults(v.pol[i], s[2], s[3], s[4])
                     : i \in DOMAIN v.pol}
    [] req.kind = "mixes" ->
         Outside(Len(v.pt), s[1], "points-count")
         \cup Outside(Len(v.seg), s[2], "segments-count")
         \cup Outside(Len(v.pol), s[3], "polygons-count")
         \cup UNION {PolygonSizeFaults(v.pol[i], s[4], s[5], s[6])
                     : i \in DOMAIN v.pol}
    [] OTHER -> {}

---------------------------------------------------------------------------
(* C04: where coordinates come from.  dom is [x |-> S, y |-> T], the sets  *)
(* of values the two coordinate strategies can produce, or intervals of    *)
(* them <<lo, hi>>; convex outlines may combine coordinates of the domain, *)
(* and are then only confined to its hull.                                 *)

Points(v) ==
  Range(v.pt)
  \cup UNION {Range(v.seg[i]) : i \in DOMAIN v.seg}
  \cup UNION {Range(r) : r \in OuterRings(v)}
  \cup UNION {Range(r) : r \in HolesOf(v)}
  \cup IF v.box = <<>> THEN {}
       ELSE {<<v.box[1][1], v.box[2][1]>>, <<v.box[1][2], v.box[2][2]>>}

\* points that have to be made of drawn coordinates
Outlined(req, v) == \* a contour that is not convex is drawn
  /\ req.kind \in {"contours", "convex_contours"}
  /\ ConvexFaults(v.rng[1]) = {}

DrawnPoints(req, v) ==
  IF Outlined(req, v) THEN {}
  ELSE IF req.kind = "multisegments" THEN {}
  ELSE IF req.kind = "mixes"
  THEN Points([v EXCEPT !.seg = <<>>])
  ELSE Points(v)

InHull(c, span) == Le(span[1], c) /\ Le(c, span[2])

\* numbers without the mark of the strategy they come from
Computed(req, v) == IF Outlined(req, v) THEN {"none"} ELSE {}

\* the same of the ends of segments
ComputedEnds(req) ==
  IF req.kind \in {"multisegments", "mixes"} THEN {"none"} ELSE {}

OriginFaults(req, v, dom) ==
  LET ps == Points(v)
      drawn == DrawnPoints(req, v)
  IN If(\E p \in ps : ~ InHull(p[1], dom.xspan), "x-out-of-range")
     \cup If(\E p \in ps : ~ InHull(p[2], dom.yspan), "y-out-of-range")
     \cup If(dom.xs # {} /\ \E p \in drawn : p[1] \notin dom.xs, "x-not-drawn")
     \cup If(dom.ys # {} /\ \E p \in drawn : p[2] \notin dom.ys, "y-not-drawn")
     \cup If(~ (/\ dom.xmarks \subseteq {"x"} \cup Computed(req, v)
                /\ dom.xmarksseg \subseteq {"x"} \cup ComputedEnds(req)),
             "x-not-kept")
     \cup If(~ (/\ dom.ymarks \subseteq {"y"} \cup Computed(req, v)
                /\ dom.ymarksseg \subseteq {"y"} \cup ComputedEnds(req)),
             "y-not-kept")

---------------------------------------------------------------------------
(* C05: holes of a polygon.                                                *)

HolesFaults(p) ==
  IF ~ WellFormed(p.b) \/ \E i \in DOMAIN p.h : ~ WellFormed(Flip(p.h[i]))
  THEN If(\E i \in DOMAIN p.h : WellFormed(p.h[i]), "hole-counterclockwise")
       \cup {"not-a-region"}
  ELSE LET hs == [i \in DOMAIN p.h |-> Flip(p.h[i])] IN
       If(\E i \in DOMAIN hs :
            \E e \in DOMAIN hs[i] : \E f \in DOMAIN p.b :
              Improper(RingEdge(hs[i], e), RingEdge(p.b, f)),
          "hole-crosses-border")
       \cup If(\E i \in DOMAIN hs : ~ Within(hs[i], p.b), "hole-outside-border")
       \cup If(\E i, j \in DOMAIN hs :
                 i < j /\ ~ BoundariesClear(RingEdges(hs[i]), RingEdges(hs[j])),
               "holes-cross")
       \cup If(\E i, j \in DOMAIN hs :
                 i < j /\ ~ InteriorsDisjoint(hs[i], hs[j]), "holes-overlap")

PolygonFaults(v) == UNION {HolesFaults(v.pol[i]) : i \in DOMAIN v.pol}

---------------------------------------------------------------------------
(* C06: members of a multicontour or multipolygon stay out of each other.  *)

ApartFaults(rs) ==
  IF \E i \in DOMAIN rs : ~ WellFormed(rs[i]) THEN {"not-a-region"}
  ELSE If(\E i, j \in DOMAIN rs :
            i < j /\ ~ BoundariesClear(RingEdges(rs[i]), RingEdges(rs[j])),
          "boundaries-cross")
       \cup If(\E i, j \in DOMAIN rs :
                 i < j /\ ~ InteriorsDisjoint(rs[i], rs[j]),
               "interiors-overlap")

MemberFaults(req, v) ==
  CASE req.kind = "multicontours" -> ApartFaults(v.rng)
    [] req.kind = "multipolygons" -> ApartFaults(Borders(v))
    [] OTHER -> {}

---------------------------------------------------------------------------
(* C08: segments.                                                          *)

SegmentFaults(v) ==
  IF \E i \in DOMAIN v.seg : v.seg[i][1] = v.seg[i][2]
  THEN {"degenerate-segment"}
  ELSE LET bad(kind) == \E i, j \in DOMAIN v.seg :
                          i < j /\ Meet(v.seg[i], v.seg[j]) = kind
       IN If(bad("cross"), "segments-cross")
          \cup If(bad("overlap"), "segments-overlap")

---------------------------------------------------------------------------
(* C07: the components of a mix.                                           *)

Sides(rs) == UNION {Range(RingEdges(rs[i])) : i \in DOMAIN rs}

MixFaults(v) ==
  LET bs == Borders(v)
      present == Cardinality({k \in 1..3 : <<v.pt, v.seg, v.pol>>[k] # <<>>})
  IN If(present < 2, "fewer-than-2-components")
     \cup If(~ Distinct(v.pt), "repeated-point")
     \cup SegmentFaults(v)
     \cup (IF \E i \in DOMAIN bs : ~ WellFormed(bs[i]) THEN {"not-a-region"}
           ELSE IF \E i \in DOMAIN v.seg : v.seg[i][1] = v.seg[i][2] THEN {}
           ELSE
             If(\E i \in DOMAIN v.pt : \E j \in DOMAIN v.seg :
                  On(v.seg[j], v.pt[i]), "point-on-segment")
             \cup If(\E i \in DOMAIN v.pt : \E j \in DOMAIN bs :
                       Locate(bs[j], v.pt[i]) >= 0, "point-in-polygon")
             \cup If(\E i \in DOMAIN v.seg : \E e \in Sides(bs) :
                       Improper(v.seg[i], e), "segment-crosses-border")
             \cup If(\E i \in DOMAIN v.seg : \E j \in DOMAIN bs :
                       DipsInto(v.seg[i], bs[j], 1), "segment-in-polygon")
             \cup ApartFaults(bs)
             \cup PolygonFaults(v))

---------------------------------------------------------------------------
(* C09: points, multipoints, boxes, empty geometries.                      *)

BasicFaults(req, v) ==
  If(req.kind = "multipoints" /\ ~ Distinct(v.pt), "repeated-point")
  \cup (IF req.kind = "boxes"
        THEN If(~ Lt(v.box[1][1], v.box[1][2]), "box-without-width")
             \cup If(~ Lt(v.box[2][1], v.box[2][2]), "box-without-height")
        ELSE {})
  \cup If(req.kind = "points" /\ Len(v.pt) # 1, "not-one-point")

---------------------------------------------------------------------------
(* The parts and classes a value of each kind has.                         *)

Count(n, one, many) == IF n = 0 THEN "Empty" ELSE IF n = 1 THEN one ELSE many

\* the class of the value, or of its three components for a mix
Classes(req, v) ==
  CASE req.kind = "empty_geometries" -> <<"Empty">>
    [] req.kind = "points" -> <<"Point">>
    [] req.kind = "multipoints" -> <<"Multipoint">>
    [] req.kind = "segments" -> <<"Segment">>
    [] req.kind = "multisegments" -> <<"Multisegment">>
    [] req.kind = "boxes" -> <<"Box">>
    [] req.kind = "multicontours" -> <<"list">>
    [] req.kind = "polygons" -> <<"Polygon">>
    [] req.kind = "multipolygons" -> <<"Multipolygon">>
    [] req.kind = "mixes" ->
         <<"Mix", Count(Len(v.pt), "Multipoint", "Multipoint"),
           Count(Len(v.seg), "Segment", "Multisegment"),
           Count(Len(v.pol), "Polygon", "Multipolygon")>>
    [] OTHER -> <<"Contour">>

ClassFaults(req, v) == If(v.cls # Classes(req, v), "wrong-class")

\* how many of each part a value of the kind has; -1 stands for any number
PartCounts(kind) ==
  CASE kind = "empty_geometries" -> <<0, 0, 0, 0, 0>>
    [] kind = "points" -> <<1, 0, 0, 0, 0>>
    [] kind = "multipoints" -> <<-1, 0, 0, 0, 0>>
    [] kind = "segments" -> <<0, 1, 0, 0, 0>>
    [] kind = "multisegments" -> <<0, -1, 0, 0, 0>>
    [] kind = "multicontours" -> <<0, 0, -1, 0, 0>>
    [] kind = "polygons" -> <<0, 0, 0, 1, 0>>
    [] kind = "multipolygons" -> <<0, 0, 0, -1, 0>>
    [] kind = "boxes" -> <<0, 0, 0, 0, 2>>
    [] kind = "mixes" -> <<-1, -1, 0, -1, 0>>
    [] OTHER -> <<0, 0, 1, 0, 0>>

WrongParts(req, v) ==
  LET n == <<Len(v.pt), Len(v.seg), Len(v.rng), Len(v.pol), Len(v.box)>>
      m == PartCounts(req.kind)
  IN \E i \in DOMAIN n : m[i] # -1 /\ n[i] # m[i]
=============================================================================
