---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Checks a recorded session against Session.tla.  Every line of the trace *)
(* is consumed; the clauses a line breaks are printed, so that one line    *)
(* out of contract does not hide the rest.                                 *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Property == IOEnv.PROPERTY

VARIABLE l

NoDomain == [xs |-> {}, ys |-> {}, xspan |-> <<>>, yspan |-> <<>>,
             xmarks |-> {}, ymarks |-> {}, xmarksseg |-> {}, ymarksseg |-> {}]

Dom(e) == IF Property = "C04"
          THEN [xs |-> Range(e.dom.xs), ys |-> Range(e.dom.ys),
                xspan |-> e.dom.xspan, yspan |-> e.dom.yspan,
               xmarks |-> Range(e.dom.xmarks),
               ymarks |-> Range(e.dom.ymarks),
               xmarksseg |-> Range(e.dom.xmarksseg),
               ymarksseg |-> Range(e.dom.ymarksseg)]
          ELSE NoDomain

Report(e, faults) ==
  IF faults = {} THEN TRUE
  ELSE PrintT("FAULT " \o ToString(l) \o " " \o ToString(faults))

TraceBuild(e) ==
  /\ e.op = "build"
  /\ Build(e.h, [kind |-> e.kind, sizes |-> e.sizes])

TraceDraw(e) ==
  /\ e.op = "draw"
  /\ Report(e, Broken(Property, open[e.h], e.v, Dom(e)))
  /\ Draw(e.h, e.c, FALSE, e.v)

\* the library answered neither with a value nor with a clean refusal
TraceRaise(e) ==
  /\ e.op = "raise"
  /\ Report(e, {"raised"})
  /\ UNCHANGED sessionVars

TraceInit == SessionInit /\ l = 1

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN TraceBuild(e) \/ TraceDraw(e) \/ TraceRaise(e)

TraceSpec == TraceInit /\ [][TraceNext]_<<l, sessionVars>>

TraceAccepted ==
  PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1)
         \o " OF " \o ToString(Len(Trace)))
=============================================================================
