----------------------------- MODULE PolicyNet ------------------------------
(***************************************************************************)
(* PolicyNet (C18, C09, C12): the reward average and the threshold, and    *)
(* the distributions with their cache. A batch is a sequence of rewards in *)
(* units of 1e-4 (exp(-time)); beta in 1/1000.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE FiniteSets

RECURSIVE FoldN(_, _, _)
FoldN(Op(_, _), acc, s) == IF s = <<>> THEN acc ELSE FoldN(Op, Op(acc, Head(s)), Tail(s))

(* moving average with damping beta of the batches' mean rewards, debiased  *)
RewardMean(b) == FoldN(LAMBDA a, x : a + x, 0, b) \div Len(b)
Moving(beta, bs) == FoldN(LAMBDA a, b : (beta * a + (1000 - beta) * (100 * RewardMean(b))) \div 1000, 0, bs)   \* 1e-6
RECURSIVE Pow(_, _)
Pow(beta, k) == IF k = 0 THEN 100000 ELSE (beta * Pow(beta, k - 1)) \div 1000                                  \* 1e-5
AvgReward(beta, bs) == IF bs = <<>> THEN 0 ELSE (1000 * Moving(beta, bs)) \div (100000 - Pow(beta, Len(bs)))       \* 1e-4

(* while below, policy 0 is returned and training changes no weights        *)
Below(beta, thr, bs) == AvgReward(beta, bs) < thr

(* policies of features k in dataset d that are faster (slower) than the    *)
(* average of k's policies                                                  *)
PolsOf(d, k) == {e[2] : e \in {x \in DOMAIN d : x[1] = k}}
RECURSIVE SumOver(_, _, _)
SumOver(d, k, ps) == IF ps = {} THEN 0 ELSE LET p == CHOOSE x \in ps : TRUE IN d[<<k, p>>] + SumOver(d, k, ps \ {p})
Faster(d, k) == {p \in PolsOf(d, k) : d[<<k, p>>] * Cardinality(PolsOf(d, k)) < SumOver(d, k, PolsOf(d, k))}
Slower(d, k) == {p \in PolsOf(d, k) : d[<<k, p>>] * Cardinality(PolsOf(d, k)) > SumOver(d, k, PolsOf(d, k))}
RECURSIVE Mass(_, _)
Mass(pr, ps) == IF ps = {} THEN 0 ELSE LET p == CHOOSE x \in ps : TRUE IN pr[p + 1] + Mass(pr, ps \ {p})
(* the distributions v[i].b follow the rewards better than v[i].a: more mass *)
(* on the faster, less on the slower policies (in total over the vectors)    *)
Follows(d, v) ==
  LET tot(Of(_), ab) == FoldN(LAMBDA x, e : x + (Mass(IF ab THEN e.a ELSE e.b, Of(e.k))), 0, v)
      F(k) == Faster(d, k)
      W(k) == Slower(d, k)
  IN tot(F, FALSE) > tot(F, TRUE) /\ tot(W, FALSE) < tot(W, TRUE)
=============================================================================
