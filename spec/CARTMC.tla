------------------------------- MODULE CARTMC -------------------------------
(***************************************************************************)
(* Properties of the tree specification itself, for every small training   *)
(* set: classes Cls at the points of a grid Side^NF (a class of 0 leaves   *)
(* the point out).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, CART
CONSTANTS Side, NF, Cls

Grid == [1..NF -> {4 * i : i \in 0..(Side - 1)}]
VARIABLE lab
Init == lab \in {f \in [Grid -> 0..Cls] : \E g \in Grid : f[g] # 0}
Next == FALSE /\ lab' = lab
Spec == Init /\ [][Next]_lab

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Pts == SetSeq({g \in Grid : lab[g] # 0})
D == [i \in DOMAIN Pts |-> [x |-> Pts[i], y |-> lab[Pts[i]]]]
X == [i \in DOMAIN Pts |-> Pts[i]]
VotesAt(depth) == TreeVotes(D, X, DOMAIN D, DOMAIN X, depth)

(* a tree that is not cut short answers the class of every training point   *)
Perfect == VotesAt(Len(D)) = {[i \in DOMAIN D |-> D[i].y]}
(* answers are classes of the training set                                  *)
InClasses == \A depth \in 0..2 : \A v \in VotesAt(depth) : \A i \in DOMAIN X : v[i] \in Classes(D, DOMAIN D)
(* depth 0 answers one class everywhere; some legal tree always exists      *)
Constant == \A v \in VotesAt(0) : \A i, j \in DOMAIN X : v[i] = v[j]
Exists == \A depth \in 0..2 : VotesAt(depth) # {}
(* recognising answers agrees with enumerating trees                        *)
Agree == \A depth \in 0..2 : \A v \in VotesAt(depth) \cup {[i \in DOMAIN X |-> 1]} :
           TreeExplains(D, [i \in DOMAIN X |-> [x |-> X[i], p |-> v[i]]], depth) <=> (v \in VotesAt(depth))
(* a one-tree forest on two points answers like a tree on some sample       *)
Forest == Len(D) <= 2 => \A v \in VotesAt(2) : SmallForest(D, X, v, 1, 2)
=============================================================================
