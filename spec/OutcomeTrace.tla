---------------------------- MODULE OutcomeTrace ----------------------------
(***************************************************************************)
(* C11: how draws end.  Every draw of a request whose coordinate domains   *)
(* are ample ends with a value or a rejection in Hypothesis' own way, and  *)
(* a request that leaves room is not rejected forever.                     *)
(*                                                                         *)
(*   tried, served   draws and values so far, by handle                    *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

VARIABLES l, size, tried, served

Trace == ndJsonDeserialize(IOEnv.TRACE)

Patience == 400

Report(faults) ==
  IF faults = {} THEN TRUE
  ELSE PrintT("FAULT " \o ToString(l) \o " " \o ToString(faults))

Request(e) ==
  [kind |-> e.kind, sizes |-> e.sizes, x |-> e.x, y |-> e.y, ctx |-> e.ctx]

Enough(h) == size[h] >= Ample(open[h])

\* Bounds that leave room: what is carved is not pinned to a size that only
\* lucky coordinates give.
Roomy(req) ==
  LET s == Effective(req)
      free(i) == s[i][2] >= s[i][1] + 3 /\ (s[i][2] < NoMax => s[i][1] <= 9)
      small(i, n) == s[i][1] <= n
  IN CASE req.kind = "polygons" -> free(1)
       [] req.kind = "multipolygons" -> free(2) /\ s[3][1] = 0
       [] req.kind = "mixes" -> s[3][2] = 0 \/ (free(4) /\ s[5][1] = 0)
       [] req.kind = "star_contours" ->
            small(1, 5) \/ (free(1) /\ small(1, 8))
       [] req.kind = "convex_contours" ->
            small(1, 5) \/ (free(1) /\ small(1, 16))
       [] req.kind \in {"contours", "concave_contours"} ->
            small(1, 5) \/ free(1)
       [] req.kind = "multicontours" -> free(2) \/ small(2, 4)
       [] OTHER -> TRUE

TraceOpen(e) ==
  /\ e.op = "open"
  /\ Report(If(Error(Request(e)) = "" /\ e.error # "", "not-built"))
  /\ IF e.error = ""
     THEN /\ Build(e.h, Request(e))
          /\ size' = (e.h :> e.size) @@ size
          /\ tried' = (e.h :> 0) @@ tried
          /\ served' = (e.h :> 0) @@ served
     ELSE UNCHANGED <<sessionVars, size, tried, served>>

TraceOutcome(e) ==
  /\ e.op = "outcome"
  /\ Report(If(e.what \notin {"value", "refused"} /\ Enough(e.h), e.what))
  /\ tried' = [tried EXCEPT ![e.h] = @ + 1]
  /\ served' = [served EXCEPT ![e.h] = @ + (IF e.what = "value" THEN 1 ELSE 0)]
  /\ UNCHANGED <<sessionVars, size>>

\* the caller is done with a strategy
TraceClose(e) ==
  /\ e.op = "close"
  /\ Report(If(/\ tried[e.h] >= Patience /\ served[e.h] = 0
               /\ Enough(e.h) /\ Roomy(open[e.h]), "starved"))
  /\ open' = [h \in DOMAIN open \ {e.h} |-> open[h]]
  /\ size' = [h \in DOMAIN size \ {e.h} |-> size[h]]
  /\ tried' = [h \in DOMAIN tried \ {e.h} |-> tried[h]]
  /\ served' = [h \in DOMAIN served \ {e.h} |-> served[h]]
  /\ UNCHANGED memo

TraceInit ==
  SessionInit /\ size = <<>> /\ tried = <<>> /\ served = <<>> /\ l = 1

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN TraceOpen(e) \/ TraceOutcome(e) \/ TraceClose(e)

TraceSpec == TraceInit /\ [][TraceNext]_<<l, sessionVars, size, tried, served>>

TraceAccepted ==
  PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1)
         \o " OF " \o ToString(Len(Trace)))
=============================================================================
