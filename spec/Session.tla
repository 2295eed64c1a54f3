------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A caller's session with the library: strategies are built from requests *)
(* and values are drawn from them by feeding a sequence of choices.        *)
(*                                                                         *)
(*   open   the requests of the strategies that were built, by handle      *)
(*   memo   what a strategy answered to a sequence of choices, for those   *)
(*          choices the caller has kept for replaying                      *)
(***************************************************************************)
EXTENDS Values

VARIABLES open, memo

sessionVars == <<open, memo>>

SessionInit == open = <<>> /\ memo = <<>>

(***************************************************************************)
(* What is wrong with the reply to building: error is "" or the class of   *)
(* the exception, named the parameters its message mentions, warned the    *)
(* parameters mentioned by the warnings issued, one entry per warning.     *)
(***************************************************************************)
BuildFaults(req, error, named, warned) ==
  LET e == Error(req)
      mates(p) == UNION {{Pairs(req.kind)[i][1], Pairs(req.kind)[i][2]} :
                         i \in {k \in DOMAIN Pairs(req.kind) :
                               p \in {Pairs(req.kind)[k][1],
                                     Pairs(req.kind)[k][2]}}}
  IN If(e = "" /\ error # "", "valid-request-fails")
     \cup If(e # "" /\ error = "", "invalid-request-accepted")
     \cup If(e # "" /\ error \notin {"", "ValueError"}, "wrong-exception")
     \cup If(e \notin {"", "components"} /\ error # ""
              /\ ~ (e \in Range(named) /\ Range(named) \subseteq mates(e)),
             "wrong-parameter-named")
     \cup If(e = "components" /\ error # "" /\ named # <<>>,
             "wrong-parameter-named")
     \cup If(e \in {"", "components"} /\ error \in {"", "ValueError"}
              /\ warned # Warned(req), "wrong-warnings")

\* a strategy that cannot be built leaves nothing behind
Build(h, req) ==
  /\ h \notin DOMAIN open
  /\ open' = IF Error(req) = "" THEN (h :> req) @@ open ELSE open
  /\ UNCHANGED memo

\* what is wrong with answering v to the strategy of h, per property
Broken(prop, req, v, dom) ==
  IF WrongParts(req, v) THEN {"wrong-parts"}
  ELSE CASE prop = "C01" -> RegionFaults(v)
         [] prop = "C02" -> ShapeFaults(req, v)
         [] prop = "C03" -> SizeFaults(req, v)
         [] prop = "C04" -> OriginFaults(req, v, dom)
         [] prop = "C05" -> PolygonFaults(v)
         [] prop = "C06" -> MemberFaults(req, v)
         [] prop = "C07" -> IF req.kind = "mixes"
                            THEN MixFaults(v) \cup ClassFaults(req, v) ELSE {}
         [] prop = "C08" -> SegmentFaults(v)
         [] prop = "C09" -> BasicFaults(req, v) \cup ClassFaults(req, v)

\* Replies are remembered per request and choices, not per strategy: equal
\* requests have to answer alike, however and wherever they were built.
Key(h, c) == <<Normal(open[h]), c>>

Contradicts(h, c, answer) ==
  Key(h, c) \in DOMAIN memo /\ memo[Key(h, c)] # answer

Draw(h, c, keep, answer) ==
  /\ h \in DOMAIN open
  /\ memo' = IF keep /\ Key(h, c) \notin DOMAIN memo
             THEN (Key(h, c) :> answer) @@ memo ELSE memo
  /\ UNCHANGED open
=============================================================================
