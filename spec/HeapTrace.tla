----------------------------- MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Checks recorded sessions in which the caller changes the values it got: *)
(* against Heap.tla for what the values hold and against the memory of     *)
(* Session.tla for what is drawn afterwards.                               *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

VARIABLES l, heap, roots

H == INSTANCE Heap

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(faults) ==
  IF faults = {} THEN TRUE
  ELSE PrintT("FAULT " \o ToString(l) \o " " \o ToString(faults))

TraceOpen(e) ==
  /\ e.op = "open"
  /\ Build(e.h, [kind |-> e.kind, sizes |-> e.sizes, x |-> e.x, y |-> e.y,
                 ctx |-> e.ctx])
  /\ UNCHANGED <<heap, roots>>

\* an answer the caller does not keep
TraceAnswer(e) ==
  /\ e.op = "answer"
  /\ Report(If(Contradicts(e.h, e.c, e.text), "answers-differ"))
  /\ Draw(e.h, e.c, TRUE, e.text)
  /\ UNCHANGED <<heap, roots>>

TraceReceive(e) ==
  /\ e.op = "receive"
  /\ Report(If(Contradicts(e.h, e.c, e.text), "answers-differ")
            \cup If(H!Within(e.ids), "shared-within-value")
            \cup If(H!Between(e.ids), "shared-between-values"))
  /\ Draw(e.h, e.c, TRUE, e.text)
  /\ H!Receive(e.w, e.ids, e.items)

TraceChange(e) ==
  /\ e.op = "change"
  /\ H!Change(e.w, e.k, e.items)
  /\ UNCHANGED sessionVars

TraceObserve(e) ==
  /\ e.op = "observe"
  /\ Report(If(e.items # H!View(e.w), "changed-from-elsewhere"))
  /\ UNCHANGED <<heap, roots, sessionVars>>

TraceForget(e) ==
  /\ e.op = "forget"
  /\ H!Release
  /\ open' = <<>> /\ memo' = <<>>

TraceInit == SessionInit /\ H!HeapInit /\ l = 1

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN \/ TraceOpen(e) \/ TraceAnswer(e) \/ TraceReceive(e)
        \/ TraceChange(e) \/ TraceObserve(e) \/ TraceForget(e)

TraceSpec == TraceInit /\ [][TraceNext]_<<l, heap, roots, sessionVars>>

TraceAccepted ==
  PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1)
         \o " OF " \o ToString(Len(Trace)))
=============================================================================
