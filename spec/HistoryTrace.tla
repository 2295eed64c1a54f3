---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories of building and drawing against the memory of *)
(* Session.tla: replies to building, and equal answers to equal requests   *)
(* and choices, within and across processes.                               *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Report(faults) ==
  IF faults = {} THEN TRUE
  ELSE PrintT("FAULT " \o ToString(l) \o " " \o ToString(faults))

Request(e) ==
  [kind |-> e.kind, sizes |-> e.sizes, x |-> e.x, y |-> e.y, ctx |-> e.ctx]

TraceBuild(e) ==
  /\ e.op = "build"
  /\ Report(BuildFaults(Request(e), e.error, e.named, e.warned))
  /\ open' = IF e.error = "" THEN (e.h :> Request(e)) @@ open ELSE open
  /\ UNCHANGED memo

\* built, and nothing noted about how
TraceOpen(e) ==
  /\ e.op = "open"
  /\ Build(e.h, Request(e))

TraceAnswer(e) ==
  /\ e.op = "answer"
  /\ Report(If(Contradicts(e.h, e.c, e.text), "answers-differ"))
  /\ Draw(e.h, e.c, TRUE, e.text)

\* the caller lets go of what it remembered
TraceForget(e) ==
  /\ e.op = "forget"
  /\ open' = <<>> /\ memo' = <<>>

TraceInit == SessionInit /\ l = 1

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN TraceBuild(e) \/ TraceOpen(e) \/ TraceAnswer(e) \/ TraceForget(e)

TraceSpec == TraceInit /\ [][TraceNext]_<<l, sessionVars>>

TraceAccepted ==
  PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1)
         \o " OF " \o ToString(Len(Trace)))
=============================================================================
