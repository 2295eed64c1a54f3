------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* C13: the arrangements that occur in a value, and those that have to     *)
(* occur among the values of a request.                                    *)
(***************************************************************************)
EXTENDS Values

Number(what, n) == what \o "=" \o ToString(n)

\* two boundaries have a common point
Contact(r, s) ==
  \E i \in DOMAIN r : \E j \in DOMAIN s :
    Meet(RingEdge(r, i), RingEdge(s, j)) # "disjoint"

AnyContact(rs) ==
  \E i, j \in DOMAIN rs : i < j /\ Contact(rs[i], rs[j])

Neighbours(rs) ==
  IF Len(rs) < 2 THEN {}
  ELSE IF AnyContact(rs) THEN {"touching"} ELSE {"apart"}

Outline(r) == {Number("vertices", Len(r)),
               IF ConvexFaults(r) = {} THEN "convex" ELSE "concave"}

Slope(s) == IF s[1][1] = s[2][1] THEN "upright"
            ELSE IF s[1][2] = s[2][2] THEN "level" ELSE "slanted"

SegmentsApart(ss) ==
  \A i, j \in DOMAIN ss : i < j => Meet(ss[i], ss[j]) = "disjoint"

PolygonFeatures(p) ==
  Outline(p.b)
  \cup {Number("holes", Len(p.h))}
  \cup {Number("hole-vertices", Len(p.h[i])) : i \in DOMAIN p.h}
  \cup (IF Len(p.h) < 2 THEN {}
        ELSE IF AnyContact(p.h) THEN {"holes-touching"} ELSE {"holes-apart"})

Components(v) ==
  Count(Len(v.pt), "Multipoint", "Multipoint") \o "+"
  \o Count(Len(v.seg), "Segment", "Multisegment") \o "+"
  \o Count(Len(v.pol), "Polygon", "Multipolygon")

Features(req, v) ==
  CASE req.kind = "multipoints" -> {Number("points", Len(v.pt))}
    [] req.kind = "segments" -> {Slope(v.seg[1])}
    [] req.kind = "multisegments" ->
         {Number("segments", Len(v.seg)),
          IF SegmentsApart(v.seg) THEN "apart" ELSE "touching"}
    [] req.kind = "multicontours" ->
         {Number("contours", Len(v.rng))} \cup Neighbours(v.rng)
         \cup UNION {Outline(v.rng[i]) : i \in DOMAIN v.rng}
    [] req.kind = "polygons" -> PolygonFeatures(v.pol[1])
    [] req.kind = "multipolygons" ->
         {Number("polygons", Len(v.pol))} \cup Neighbours(Borders(v))
         \cup UNION {PolygonFeatures(v.pol[i]) : i \in DOMAIN v.pol}
         \cup {IF \E i \in DOMAIN v.pol : v.pol[i].h # <<>>
               THEN "with-holes" ELSE "without-holes"}
    [] req.kind = "mixes" ->
         {Number("points", Len(v.pt)), Number("segments", Len(v.seg)),
          Number("polygons", Len(v.pol)), Components(v)}
         \cup (IF v.pol = <<>> THEN {}
               ELSE {IF \E i \in DOMAIN v.pol : v.pol[i].h # <<>>
                     THEN "with-holes" ELSE "without-holes"})
    [] v.rng # <<>> -> Outline(v.rng[1])
    [] OTHER -> {}

---------------------------------------------------------------------------
\* the numbers a bounded pair admits, the first few of an open one
Admitted(bound) ==
  bound[1]..(IF bound[2] = NoMax THEN bound[1] + 2 ELSE bound[2])

Numbers(what, bound) == {Number(what, n) : n \in Admitted(bound)}

Sizes(bound) == \* kinds of components
  (IF bound[1] = 0 THEN {0} ELSE {})
  \cup (IF bound[1] <= 1 /\ bound[2] >= 1 THEN {1} ELSE {})
  \cup (IF bound[2] >= 2 THEN {2} ELSE {})

\* admissible combinations of components of a mix
Combinations(s) ==
  {Count(p, "Multipoint", "Multipoint") \o "+"
   \o Count(q, "Segment", "Multisegment") \o "+"
   \o Count(r, "Polygon", "Multipolygon") :
   <<p, q, r>> \in {t \in Sizes(s[1]) \X Sizes(s[2]) \X Sizes(s[3]) :
                    Cardinality({k \in 1..3 : t[k] > 0}) >= 2}}

\* a component can be empty only if the other two do not have to be
NumbersBeside(what, s, k) ==
  {Number(what, n) :
   n \in {m \in Admitted(s[k]) :
            Cardinality({j \in 1..3 \ {k} : s[j][2] > 0})
            >= (IF m = 0 THEN 2 ELSE 1)}}

Both(bound) == (IF bound[2] > 3 THEN {"concave"} ELSE {})
               \cup {"convex"}

\* Holes are carved from what lies behind the border already carved: they are
\* never seen at the border itself, and nothing promises that they are.
HoleFeatures(holes, sizes) ==
  Numbers("holes", holes)
  \cup (IF holes[2] = 0 THEN {}
        ELSE Numbers("hole-vertices", sizes))
  \cup (IF holes[2] >= 2 THEN {"holes-touching", "holes-apart"} ELSE {})

Expected(req) ==
  LET s == Effective(req) IN
  CASE req.kind = "multipoints" -> Numbers("points", s[1])
    [] req.kind = "segments" -> {"level", "upright", "slanted"}
    [] req.kind = "multisegments" ->
         Numbers("segments", s[1]) \cup {"touching", "apart"}
    [] req.kind = "contours" ->
         Numbers("vertices", s[1]) \cup Both(s[1])
    [] req.kind = "star_contours" ->
         Numbers("vertices", s[1]) \cup Both(s[1])
    [] req.kind = "convex_contours" -> Numbers("vertices", s[1])
    [] req.kind = "concave_contours" -> Numbers("vertices", s[1])
    [] req.kind = "multicontours" ->
         Numbers("contours", s[1]) \cup {"touching", "apart"}
         \cup Numbers("vertices", s[2]) \cup Both(s[2])
    [] req.kind = "polygons" ->
         Numbers("vertices", s[1]) \cup Both(s[1])
         \cup HoleFeatures(s[2], s[3])
    [] req.kind = "multipolygons" ->
         Numbers("polygons", s[1]) \cup {"touching", "apart"}
         \cup Numbers("vertices", s[2]) \cup Both(s[2])
         \cup HoleFeatures(s[3], s[4])
         \cup (IF s[3][2] > 0 THEN {"with-holes"} ELSE {})
         \cup (IF s[3][1] = 0 THEN {"without-holes"} ELSE {})
    [] req.kind = "mixes" ->
         NumbersBeside("points", s, 1) \cup NumbersBeside("segments", s, 2)
         \cup NumbersBeside("polygons", s, 3) \cup Combinations(s)
         \cup (IF s[3][2] > 0 /\ s[5][2] > 0 THEN {"with-holes"} ELSE {})
         \cup (IF s[3][2] > 0 /\ s[5][1] = 0 THEN {"without-holes"} ELSE {})
    [] OTHER -> {}
=============================================================================
