-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* The decision table of the size arguments: every kind with every         *)
(* combination of representative bounds.  TLC checks what the table has to *)
(* satisfy and writes the requests out, to be made to the real functions.  *)
(***************************************************************************)
EXTENDS Requests, Json, IOUtils, SequencesExt, TLC

CONSTANT Deep   \* TRUE: the full product for every kind

\* all small pairs around the least meaningful size
AllBounds(floor) ==
  ((-2)..(floor + 2)) \X (((-2)..(floor + 3)) \cup {NoMax})

\* one representative of every class of pairs, the two borders of each
FewBounds(floor) ==
  {<<floor, NoMax>>, <<floor, floor + 1>>, <<floor + 1, floor>>,
   <<floor - 1, NoMax>>, <<floor, floor - 1>>, <<-1, floor + 1>>,
   <<-1, NoMax>>}
  \cup (IF floor = 0 THEN {<<0, 0>>} ELSE {<<0, floor>>, <<-1, -1>>})

\* valid or faulty, the least there is to tell
TwoBounds(floor) == {<<floor, NoMax>>, <<floor, floor - 1>>, <<floor - 1, NoMax>>}

PairsOf(kind) == Pairs(kind)

\* all tuples with the i-th entry from sets[i]
RECURSIVE Tuples(_)
Tuples(sets) == IF sets = <<>> THEN {<<>>}
                ELSE {<<h>> \o t : h \in Head(sets), t \in Tuples(Tail(sets))}

SizesOf(kind) ==
  LET ps == Pairs(kind)
      n == Len(ps)
      few(i) == FewBounds(ps[i][3])
      two(i) == TwoBounds(ps[i][3])
      one(i) == {<<ps[i][3], NoMax>>}
      \* one pair at a time takes all its values, the others stay plain
      single == UNION {Tuples([i \in 1..n |->
                         IF i = k THEN AllBounds(ps[i][3]) ELSE one(i)])
                       : k \in 1..n}
  IN IF n = 1 THEN Tuples(<<AllBounds(ps[1][3])>>)
     ELSE IF n <= 3 THEN single \cup Tuples([i \in 1..n |-> few(i)])
     ELSE IF n = 4
     THEN single \cup Tuples([i \in 1..n |-> IF Deep THEN few(i) ELSE
                                IF i = 3 THEN few(i) ELSE
                                TwoBounds(ps[i][3]) \cup {<<-1, NoMax>>}])
     ELSE single
          \cup Tuples([i \in 1..n |-> IF i <= 3 THEN few(i)
                                      ELSE IF Deep THEN two(i) ELSE one(i)])
          \cup Tuples([i \in 1..n |-> two(i)])

RequestsOf(kind) ==
  {[kind |-> kind, sizes |-> s, x |-> 1, y |-> 0, ctx |-> 0]
   : s \in SizesOf(kind)}

VARIABLE req

Init == req \in UNION {RequestsOf(k) : k \in Sized}
Next == UNCHANGED req
Spec == Init /\ [][Next]_req

Accepted == Error(req) = ""

\* an accepted request amounts to one without anything to warn about
NormalIsPlain ==
  Accepted => /\ Error(Normal(req)) = ""
              /\ Warned(Normal(req)) = <<>>
              /\ Normal(Normal(req)) = Normal(req)
              /\ \A i \in DOMAIN Pairs(req.kind) :
                   LET e == Effective(req)[i]
                   IN Pairs(req.kind)[i][3] <= e[1] /\ e[1] <= e[2]

\* a fault is always reported for the first broken pair
FirstIsNamed ==
  \A i \in DOMAIN Faults(req) :
    Faults(req)[i] # "" =>
      \E j \in 1..i : Error(req) = Faults(req)[j] /\ Error(req) # ""

\* warnings never concern pairs without a reason
WarnedAreLow ==
  \A k \in DOMAIN Warned(req) :
    \E i \in DOMAIN Pairs(req.kind) :
      /\ Pairs(req.kind)[i][1] = Warned(req)[k]
      /\ req.sizes[i][1] < Pairs(req.kind)[i][3]

Table == SetToSeq(UNION {RequestsOf(k) : k \in Sized})

ASSUME ndJsonSerialize(IOEnv.TABLE, Table)
=============================================================================
