------------------------------- MODULE Stored -------------------------------
(* What a stored tree or forest file says (C25). A node is a record          *)
(*   f     feature (from 0), t threshold, c predicted class, n samples,      *)
(*   cnt   samples per class, as a sequence of [c, n], g Gini impurity in    *)
(*         units of 10^-6, kids <<>> or <<left, right>>,                     *)
(*   txt   the node's entries as text (for the picture)                      *)
(* Feature values and thresholds are ranks: integers ordered like the        *)
(* numbers.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Eval(_, _)
Eval(nd, x) == IF nd.kids = <<>> THEN nd.c
               ELSE IF x[nd.f + 1] < nd.t THEN Eval(nd.kids[1], x) ELSE Eval(nd.kids[2], x)

CntOf(nd, c) == LET I == {i \in DOMAIN nd.cnt : nd.cnt[i].c = c} IN IF I = {} THEN 0 ELSE nd.cnt[CHOOSE i \in I : TRUE].n
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Total(nd) == SumTo([i \in DOMAIN nd.cnt |-> nd.cnt[i].n], Len(nd.cnt))
Squares(nd) == SumTo([i \in DOMAIN nd.cnt |-> nd.cnt[i].n * nd.cnt[i].n], Len(nd.cnt))
Dist(a, b) == IF a < b THEN b - a ELSE a - b
(* 1 - sum (n_c / n)^2, to 10^-4 (all sizes here are below 200)              *)
GiniOk(nd) == LET n2 == nd.n * nd.n IN Dist(nd.g, (1000 * (n2 - Squares(nd)) * 1000) \div n2) <= 100

(* the node agrees with the rows that reach it: counts, prediction, impurity *)
RECURSIVE NodeOk(_, _, _)
NodeOk(nd, rows, depth) ==
  /\ nd.n = Len(rows) /\ nd.n > 0 /\ Total(nd) = nd.n
  /\ \A i, j \in DOMAIN nd.cnt : nd.cnt[i].c = nd.cnt[j].c => i = j
  /\ \A i \in DOMAIN rows : \E j \in DOMAIN nd.cnt : nd.cnt[j].c = rows[i].y
  /\ \A j \in DOMAIN nd.cnt : nd.cnt[j].n = Cardinality({i \in DOMAIN rows : rows[i].y = nd.cnt[j].c})
  /\ \A j \in DOMAIN nd.cnt : nd.cnt[j].n <= CntOf(nd, nd.c)
  /\ GiniOk(nd)
  /\ nd.kids = <<>> \/ (/\ depth > 0 /\ Len(nd.kids) = 2
                        /\ LET L == SelectSeq(rows, LAMBDA r : r.x[nd.f + 1] < nd.t)
                               R == SelectSeq(rows, LAMBDA r : ~(r.x[nd.f + 1] < nd.t))
                           IN NodeOk(nd.kids[1], L, depth - 1) /\ NodeOk(nd.kids[2], R, depth - 1))

(* a tree file: root, depth, classes, rows (x, y and k, the vector as text)  *)
TreeFileOk(t) ==
  /\ {t.rows[i].y : i \in DOMAIN t.rows} \subseteq {t.classes[i] : i \in DOMAIN t.classes}
  /\ \A i \in DOMAIN t.rows : Len(t.rows[i].x) = t.nf
  /\ NodeOk(t.root, t.rows, t.depth)

(* answers q = [x, p] of the model the file came from or that was made of it *)
Votes(ts, x, p) == Cardinality({i \in DOMAIN ts : Eval(ts[i].root, x) = p})
FileAnswers(ts, q) ==
  \A i \in DOMAIN q : \A j \in DOMAIN ts :
     Votes(ts, q[i].x, q[i].p) >= Votes(ts, q[i].x, Eval(ts[j].root, q[i].x)) /\ Votes(ts, q[i].x, q[i].p) > 0

(* the picture of a node named s: its boxes and arrows                       *)
RECURSIVE Boxes(_, _), Arrows(_, _)
Boxes(nd, s) == {<<s, nd.txt>>} \cup (IF nd.kids = <<>> THEN {} ELSE Boxes(nd.kids[1], s \o "_left") \cup Boxes(nd.kids[2], s \o "_right"))
Arrows(nd, s) == IF nd.kids = <<>> THEN {}
                 ELSE {<<s, s \o "_left">>, <<s, s \o "_right">>} \cup Arrows(nd.kids[1], s \o "_left") \cup Arrows(nd.kids[2], s \o "_right")
=============================================================================
