---------------------------- MODULE ContextTrace ----------------------------
(***************************************************************************)
(* C14: what geometries are instances of.  Callers bring contexts with     *)
(* classes of their own; every node of a value is an instance of the class *)
(* that the context of the request has for what the node is.               *)
(*                                                                         *)
(*   contexts   context -> role -> class                                   *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

VARIABLES l, contexts

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(faults) ==
  IF faults = {} THEN TRUE
  ELSE PrintT("FAULT " \o ToString(l) \o " " \o ToString(faults))

Request(e) ==
  [kind |-> e.kind, sizes |-> e.sizes, x |-> e.x, y |-> e.y, ctx |-> e.ctx]

RootRoles(kind) ==
  CASE kind = "empty_geometries" -> {"Empty"}
    [] kind = "points" -> {"Point"}
    [] kind = "multipoints" -> {"Multipoint"}
    [] kind = "segments" -> {"Segment"}
    [] kind = "multisegments" -> {"Multisegment"}
    [] kind = "boxes" -> {"Box"}
    [] kind = "polygons" -> {"Polygon"}
    [] kind = "multipolygons" -> {"Multipolygon"}
    [] kind = "mixes" -> {"Mix"}
    [] kind = "multicontours" -> {}   \* a list
    [] OTHER -> {"Contour"}

\* what may stand at a place of a value
Roles(kind, place) ==
  CASE place = "root" -> RootRoles(kind)
    [] place \in {"vertices", "points", "start", "end"} -> {"Point"}
    [] place = "segments" -> {"Segment"}
    [] place \in {"border", "holes", "items"} -> {"Contour"}
    [] place = "polygons" -> {"Polygon"}
    [] place = "discrete" -> {"Empty", "Multipoint"}
    [] place = "linear" -> {"Empty", "Segment", "Multisegment"}
    [] place = "shaped" -> {"Empty", "Polygon", "Multipolygon"}
    [] OTHER -> {}

\* nodes: <<place, class>>
ClassesFaults(req, nodes) ==
  {"class-of-" \o nodes[i][1] :
   i \in {k \in DOMAIN nodes :
          nodes[k][2] \notin {contexts[req.ctx][r] :
                             r \in Roles(req.kind, nodes[k][1])}}}

TraceContext(e) ==
  /\ e.op = "context"
  /\ contexts' = (e.ctx :> e.classes) @@ contexts
  /\ UNCHANGED sessionVars

TraceOpen(e) ==
  /\ e.op = "open"
  /\ e.ctx \in DOMAIN contexts
  /\ Build(e.h, Request(e))
  /\ UNCHANGED contexts

TraceDraw(e) ==
  /\ e.op = "nodes"
  /\ Report(ClassesFaults(open[e.h], e.nodes))
  /\ Draw(e.h, e.c, FALSE, "")
  /\ UNCHANGED contexts

TraceInit == SessionInit /\ contexts = <<>> /\ l = 1

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN TraceContext(e) \/ TraceOpen(e) \/ TraceDraw(e)

TraceSpec == TraceInit /\ [][TraceNext]_<<l, contexts, sessionVars>>

TraceAccepted ==
  PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1)
         \o " OF " \o ToString(Len(Trace)))
=============================================================================
