-------------------------------- MODULE CART --------------------------------
(***************************************************************************)
(* What decisions a decision tree or forest may take.                      *)
(*                                                                         *)
(* A training set d is a sequence of points [x |-> vector of integers,     *)
(* y |-> class]. A legal tree splits an impure set, while depth is left,   *)
(* between two adjacent values of a feature with minimal weighted Gini     *)
(* impurity (ties, and differences below floating point resolution, leave  *)
(* a choice), midway between the two values, and answers a majority class  *)
(* at a leaf. Observed decisions q = <<[x, p], ...>> are explained when    *)
(* some legal tree takes all of them. Integers only: impurities are        *)
(* compared as fractions.                                                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

LOCAL SumSet(S, f(_)) ==
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f(x) + go(T \ {x})
  IN go(S)

Classes(d, P) == {d[i].y : i \in P}
CountOf(d, P, c) == Cardinality({i \in P : d[i].y = c})
SumSq(d, P) == SumSet(Classes(d, P), LAMBDA c : CountOf(d, P, c) * CountOf(d, P, c))
Majority(d, P) == {c \in Classes(d, P) : \A e \in Classes(d, P) : CountOf(d, P, e) <= CountOf(d, P, c)}

(* candidate splits of P: feature f, lower value a, next value b            *)
Splits(d, P) ==
  UNION { LET vs == {d[i].x[f] : i \in P}
          IN { [f |-> f, a |-> a, b |-> CHOOSE b \in vs : b > a /\ \A w \in vs : w > a => b <= w]
               : a \in {v \in vs : \E w \in vs : w > v} }
        : f \in DOMAIN d[CHOOSE i \in P : TRUE].x }

(* num/den in units of 2^-20, rounded down, in small numbers                *)
RECURSIVE Frac(_, _, _)
Frac(r, den, k) == IF k = 0 THEN 0
                   ELSE ((16 * r) \div den) * (16 ^ (k - 1)) + Frac((16 * r) % den, den, k - 1)
Fix(num, den) == (num \div den) * 1048576 + Frac(num % den, den, 5)

(* value of a split: the larger, the smaller the weighted impurity          *)
Value(d, P, s) ==
  LET L == {i \in P : d[i].x[s.f] <= s.a}
      R == P \ L
      nl == Cardinality(L) nr == Cardinality(R)
  IN [s |-> s, L |-> L, R |-> R, val |-> Fix(SumSq(d, L) * nr + SumSq(d, R) * nl, nl * nr)]

(* u is at least as good as v up to floating point resolution               *)
GoodAs(n, u, v) == v.val - u.val <= (n * 2621) \div 1000 + 1

BestSplits(d, P) ==
  LET vs == {Value(d, P, s) : s \in Splits(d, P)}
      n  == Cardinality(P)
      m  == CHOOSE u \in vs : \A v \in vs : v.val <= u.val
  IN IF vs = {} THEN {} ELSE {u \in vs : GoodAs(n, u, m)}

(* queries on the left of the middle between a and b; the middle itself is  *)
(* never asked                                                              *)
LeftQ(q, Q, s) == {i \in Q : 2 * q[i].x[s.f] < s.a + s.b}

RECURSIVE Explains(_, _, _, _, _)
Explains(d, q, P, Q, depth) ==
  IF depth = 0 \/ Cardinality(Classes(d, P)) = 1
  THEN \E c \in Majority(d, P) : \A i \in Q : q[i].p = c
  ELSE IF Q = {} THEN TRUE
  ELSE LET bs == BestSplits(d, P)
       IN IF bs = {} THEN \E c \in Majority(d, P) : \A i \in Q : q[i].p = c
          ELSE \E u \in bs : LET ql == LeftQ(q, Q, u.s) IN
                  /\ Explains(d, q, u.L, ql, depth - 1)
                  /\ Explains(d, q, u.R, Q \ ql, depth - 1)

TreeExplains(d, q, depth) == Explains(d, q, DOMAIN d, DOMAIN q, depth)

-----------------------------------------------------------------------------
(* Forests. e.trees: per tree its sample (points) and its votes on the      *)
(* queries e.x; d the training points, e.p the forest's answers. With many  *)
(* trees every point is in some sample, some point is drawn twice, and not  *)
(* all samples are the same (probability of the contrary below 1e-12).      *)
Votes(e, i) == [c \in {e.trees[t].v[i] : t \in DOMAIN e.trees} |->
                  Cardinality({t \in DOMAIN e.trees : e.trees[t].v[i] = c})]
LOCAL Points(d) == {d[i] : i \in DOMAIN d}
Bootstrap(e, d) ==
  Len(e.trees) >= 40 /\ Len(d) >= 3 =>
    /\ UNION {Points(e.trees[t].d) : t \in DOMAIN e.trees} = Points(d)
    /\ \E t \in DOMAIN e.trees : Points(e.trees[t].d) # Points(d)
    /\ \E t, u \in DOMAIN e.trees : Points(e.trees[t].d) # Points(e.trees[u].d)
ForestExplains(e, d) ==
  /\ Len(e.trees) = e.n
  /\ \A t \in DOMAIN e.trees :
       LET T == e.trees[t] IN
       /\ Len(T.d) = Len(d)
       /\ Points(T.d) \subseteq Points(d)
       /\ TreeExplains(T.d, [i \in DOMAIN e.x |-> [x |-> e.x[i], p |-> T.v[i]]], e.depth)
  /\ Bootstrap(e, d)
  /\ \A i \in DOMAIN e.x :
       LET v == Votes(e, i) IN e.p[i] \in DOMAIN v /\ \A c \in DOMAIN v : v[c] <= v[e.p[i]]

(* all vote vectors a legal tree for sample s may give on queries x         *)
RECURSIVE TreeVotes(_, _, _, _, _)
TreeVotes(s, x, P, Q, depth) ==
  LET bs == IF depth = 0 \/ Cardinality(Classes(s, P)) = 1 THEN {} ELSE BestSplits(s, P)
  IN IF bs = {} THEN {[i \in Q |-> c] : c \in Majority(s, P)}
     ELSE UNION { LET ql == {i \in Q : 2 * x[i][u.s.f] < u.s.a + u.s.b}
                  IN { [i \in Q |-> IF i \in ql THEN a[i] ELSE b[i]]
                       : a \in TreeVotes(s, x, u.L, ql, depth - 1),
                         b \in TreeVotes(s, x, u.R, Q \ ql, depth - 1) } : u \in bs }

(* answers p of a forest of n trees, nothing else known: explained when     *)
(* some samples and trees give them                                         *)
SmallForest(d, x, p, n, depth) ==
  LET N == Len(d)
      samples == [1..N -> Points(d)]
      V == UNION {TreeVotes(s, x, 1..N, DOMAIN x, depth) : s \in samples}
      win(vs, i) == \A c \in {vs[t][i] : t \in DOMAIN vs} :
                       Cardinality({t \in DOMAIN vs : vs[t][i] = c}) <= Cardinality({t \in DOMAIN vs : vs[t][i] = p[i]})
  IN \E vs \in [1..n -> V] : \A i \in DOMAIN x : (\E t \in 1..n : vs[t][i] = p[i]) /\ win(vs, i)
=============================================================================
