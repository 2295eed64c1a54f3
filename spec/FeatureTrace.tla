---------------------------- MODULE FeatureTrace ----------------------------
(***************************************************************************)
(* Collects the arrangements that occur among the values of a request and  *)
(* compares them with those that have to.                                  *)
(*                                                                         *)
(*   seen   feature -> number of values with it, by handle                 *)
(***************************************************************************)
EXTENDS Features, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, open, seen

vars == <<l, open, seen>>

Report(faults) ==
  IF faults = {} THEN TRUE
  ELSE PrintT("FAULT " \o ToString(l) \o " " \o ToString(faults))

TraceOpen(e) ==
  /\ e.op = "open"
  /\ open' = (e.h :> [kind |-> e.kind, sizes |-> e.sizes, x |-> 0, y |-> 0,
                      ctx |-> 0]) @@ open
  /\ seen' = (e.h :> <<>>) @@ seen

TraceDraw(e) ==
  /\ e.op = "draw"
  /\ LET fs == Features(open[e.h], e.v)
         old == seen[e.h]
     IN seen' = [seen EXCEPT ![e.h] =
                   [f \in DOMAIN old \cup fs |->
                      (IF f \in DOMAIN old THEN old[f] ELSE 0)
                      + (IF f \in fs THEN 1 ELSE 0)]]
  /\ UNCHANGED open

\* the request was given its fair share of draws
TraceClose(e) ==
  /\ e.op = "close"
  /\ LET missing == (Expected(open[e.h]) \ {e.rare[i] : i \in DOMAIN e.rare})
                    \ DOMAIN seen[e.h]
     IN Report({"never-" \o f : f \in missing})
  /\ PrintT("SEEN " \o ToString(l) \o " " \o ToString(
       [f \in Expected(open[e.h]) |->
          IF f \in DOMAIN seen[e.h] THEN seen[e.h][f] ELSE 0]))
  /\ UNCHANGED <<open, seen>>

Init == l = 1 /\ open = <<>> /\ seen = <<>>

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN TraceOpen(e) \/ TraceDraw(e) \/ TraceClose(e)

TraceSpec == Init /\ [][Next]_vars

TraceAccepted ==
  PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1)
         \o " OF " \o ToString(Len(Trace)))
=============================================================================
