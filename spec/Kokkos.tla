------------------------------- MODULE Kokkos -------------------------------
(***************************************************************************)
(* The Kokkos connector on top of the runtime (C16, C17).                  *)
(*                                                                         *)
(* A variable declares candidates: a set, an integer or stepped range, or  *)
(* a continuous range (cut into Slices pieces). Values are integers: the   *)
(* numbers themselves, multiples of a variable's unit, or positions in a   *)
(* set of strings. A tuning problem is a list of context and tuning        *)
(* variables and owns one region whose policies are the combinations of    *)
(* the tuning variables' candidates.                                       *)
(*                                                                         *)
(*  K.prob  problem -> region                                              *)
(*  K.ctx   context -> [c |-> execution, pr |-> problem, v |-> values]     *)
(*  K.comb  region -> (policy -> combination) as far as known              *)
(*  K.n     completed contexts, K.flush the flush rate                     *)
(*  K.unconv  problems begun without a stored model since the last flush   *)
(***************************************************************************)
EXTENDS ApolloCore

Slices == 100

(* number of candidates                                                     *)
First(v) == IF v.ol THEN (IF v.t = "i" THEN v.lo + 1 ELSE v.lo + v.st) ELSE v.lo
Last(v)  == IF v.ou THEN v.hi - 1 ELSE v.hi      \* largest value in the range, in units
NumCand(v) == CASE v.q = "set"   -> Len(v.vals)
                [] v.q = "range" -> IF v.st = 0 THEN Slices ELSE ((Last(v) - First(v)) \div v.st) + 1
IsCand(v, x) == CASE v.q = "set" -> x \in Range(v.vals)
                  [] v.q = "range" -> IF v.st = 0
                                      THEN (IF v.ol THEN x > v.lo ELSE x >= v.lo) /\ (IF v.ou THEN x < v.hi ELSE x <= v.hi)
                                      ELSE x \in First(v)..Last(v) /\ (x - First(v)) % v.st = 0

RECURSIVE Product(_)
Product(vs) == IF vs = <<>> THEN 1 ELSE NumCand(Head(vs)) * Product(Tail(vs))

InitK == [prob |-> [x \in {} |-> 0], ctx |-> [x \in {} |-> 0], comb |-> [x \in {} |-> 0],
          n |-> 0, flush |-> 500, unconv |-> 0]

CombOf(K, r) == IF r \in DOMAIN K.comb THEN K.comb[r] ELSE EmptyFn

(* policy p may stand for combination w: p is not another one, and w is not *)
(* another policy's                                                         *)
CombOk(K, r, p, w) == LET m == CombOf(K, r) IN
  /\ p \in DOMAIN m => m[p] = w
  /\ \A q \in DOMAIN m : m[q] = w => q = p
Bind(K, r, p, w) == IF p = -1 \/ p \in DOMAIN CombOf(K, r) THEN K
                    ELSE [K EXCEPT !.comb = (r :> ((p :> w) @@ CombOf(K, r))) @@ @]
(* the policy a combination is known to stand for                           *)
PolicyOf(K, r, w) == LET m == CombOf(K, r) IN
  IF \E q \in DOMAIN m : m[q] = w THEN CHOOSE q \in DOMAIN m : m[q] = w ELSE -1

(* A request of context x for problem pr with region r (already created),   *)
(* execution c, features k, policy p standing for combination w             *)
KRequestS(S, r, c, k, p) == GetPolicy(Begin(S, r, c, "sync", k, 0), c, p)
KRequestK(K, x, pr, r, c, p, w) ==
  [Bind(K, r, p, w) EXCEPT !.ctx = (x :> [c |-> c, pr |-> pr, r |-> r, v |-> w]) @@ @,
                           !.prob = (pr :> r) @@ @]

(* The end of context x                                                     *)
Open(K, x) == x \in DOMAIN K.ctx /\ K.ctx[x].c # ""
KEndK(K, x) == IF ~Open(K, x) THEN K
               ELSE LET K1 == [K EXCEPT !.n = @ + 1, !.ctx[x].c = ""]
                    IN IF K1.n % K1.flush = 0 THEN [K1 EXCEPT !.unconv = 0] ELSE K1
KEndS(S, K, x) ==
  IF ~Open(K, x) THEN S
  ELSE LET S1 == End(S, K.ctx[x].c)
       IN IF (K.n + 1) % K.flush = 0 THEN TrainAll(S1, 0, TRUE) ELSE S1

(* kernels are fenced on their device, before and after, while some problem *)
(* explores                                                                 *)
Fences(K, dev) == IF K.unconv > 0 THEN <<dev, dev>> ELSE <<>>
=============================================================================
