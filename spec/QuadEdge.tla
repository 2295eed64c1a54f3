------------------------------ MODULE QuadEdge ------------------------------
(***************************************************************************)
(* The quad-edge structure of Guibas and Stolfi, as the library keeps it.  *)
(*                                                                         *)
(* An edge k is four darts 4k .. 4k + 3, each the previous one rotated;    *)
(* 4k is the edge itself, 4k + 2 its opposite, the odd ones are dual.      *)
(* A structure is s = [n |-> number of edges ever made,                    *)
(* next |-> left_from_start of every dart, org |-> start of even darts].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rot(d) == 4 * (d \div 4) + ((d + 1) % 4)
Sym(d) == Rot(Rot(d))
InvRot(d) == Rot(Rot(Rot(d)))
Darts(s) == 0..(4 * s.n - 1)
Primal(s) == {d \in Darts(s) : d % 2 = 0}

Next(s, d) == s.next[d]                          \* left_from_start
LeftFromEnd(s, d) == Rot(s.next[InvRot(d)])
RightFromStart(s, d) == Rot(s.next[Rot(d)])
RightFromEnd(s, d) == s.next[Sym(d)]
Org(s, d) == s.org[d]
End(s, d) == s.org[Sym(d)]

Empty == [n |-> 0, next |-> <<>>, org |-> <<>>]

Extend(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

\* a new edge, on its own; its dart is 4 * s.n
Made(s, p, q) ==
  LET k == 4 * s.n IN
  [n |-> s.n + 1,
   next |-> Extend(s.next, [d \in k..(k + 3) |->
                              IF d = k THEN k ELSE IF d = k + 1 THEN k + 3
                              ELSE IF d = k + 2 THEN k + 2 ELSE k + 1]),
   org |-> Extend(s.org, [d \in {k, k + 2} |-> IF d = k THEN p ELSE q])]

Spliced(s, a, b) ==
  LET alpha == Rot(s.next[a])
      beta == Rot(s.next[b])
      one == [s.next EXCEPT ![a] = s.next[b], ![b] = s.next[a]]
  IN [s EXCEPT !.next = [one EXCEPT ![alpha] = one[beta], ![beta] = one[alpha]]]

\* a new edge from the end of a to the start of b, with a, it and b having
\* the same face on the left
Connected(s, a, b) ==
  LET m == Made(s, End(s, a), Org(s, b))
      e == 4 * s.n
      t == Spliced(m, e, LeftFromEnd(m, a))
  IN Spliced(t, Sym(e), b)

Deleted(s, e) ==
  LET t == Spliced(s, e, RightFromStart(s, e))
  IN Spliced(t, Sym(e), RightFromStart(t, Sym(e)))

FlippedEdge(s, e) ==
  LET a == RightFromStart(s, e)
      b == RightFromStart(s, Sym(e))
      t1 == Spliced(s, e, a)
      t2 == Spliced(t1, Sym(e), b)
      t3 == Spliced(t2, e, LeftFromEnd(t2, a))
      t4 == Spliced(t3, Sym(e), LeftFromEnd(t3, b))
  IN [t4 EXCEPT !.org[e] = End(t4, a), !.org[Sym(e)] = End(t4, b)]

---------------------------------------------------------------------------
RECURSIVE OrbitFrom(_, _, _)
OrbitFrom(f, d, seen) == IF d \in seen THEN seen
                         ELSE OrbitFrom(f, f[d], seen \cup {d})
Orbit(f, d) == OrbitFrom(f, d, {})

\* cycles of darts around vertices and around faces
Stars(s) == {Orbit(s.next, d) : d \in Primal(s)}
LeftNext(s) == [d \in Primal(s) |-> LeftFromEnd(s, d)]
Faces(s) == {Orbit(LeftNext(s), d) : d \in Primal(s)}

(* The axioms. *)
Algebra(s) ==
  /\ \A d \in Darts(s) :
       /\ s.next[d] \in Darts(s)
       /\ s.next[d] % 2 = d % 2                     \* duals stay duals
       /\ Rot(s.next[Rot(s.next[d])]) = d
  /\ \A c, d \in Darts(s) : s.next[c] = s.next[d] => c = d

Components(s) ==
  LET near(d) == {s.next[d], Sym(d)} IN
  LET RECURSIVE grow(_)
      grow(x) == LET y == x \cup UNION {near(d) : d \in x}
                 IN IF y = x THEN x ELSE grow(y)
  IN {grow({d}) : d \in Primal(s)}

\* genus 0 in every component: V - E + F = 2
Plane(s) ==
  \A c \in Components(s) :
    Cardinality({x \in Stars(s) : x \subseteq c})
    - Cardinality(c) \div 2
    + Cardinality({x \in Faces(s) : x \subseteq c}) = 2

\* the darts around a vertex start there
Rooted(s) ==
  \A d \in Primal(s) : Org(s, s.next[d]) = Org(s, d)
=============================================================================
