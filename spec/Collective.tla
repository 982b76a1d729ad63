----------------------------- MODULE Collective -----------------------------
(***************************************************************************)
(* Collective training (C13). Every rank has regions, every region a       *)
(* dataset: a function from entries <<features, policy>> to averages. When *)
(* all ranks train, a rank's region takes in the entries of the region of  *)
(* the same name of every other rank, one rank after the other in any      *)
(* order; a new entry is stored, an entry both have becomes the mean.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AddTo(d, f) == [x \in DOMAIN d \cup DOMAIN f |->
                  IF x \notin DOMAIN d THEN f[x] ELSE IF x \notin DOMAIN f THEN d[x] ELSE (d[x] + f[x]) \div 2]

Orders(S) == {o \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : o[i] = o[j] => i = j}

RECURSIVE Take(_, _, _, _)
Take(d, before, order, r) ==      \* d takes in region r of the ranks of a sequence
  IF order = <<>> THEN d
  ELSE Take(IF r \in DOMAIN before[order[1]] THEN AddTo(d, before[order[1]][r]) ELSE d, before, Tail(order), r)

(* the datasets rank k may have after all ranks trained from `before`       *)
Combined(before, k, r) == {Take(before[k][r], before, o, r) : o \in Orders(DOMAIN before \ {k})}

(* entry by entry, so that each entry may have met the ranks in its own order *)
EntryOk(before, k, r, x, v) ==
  \E o \in Orders({j \in DOMAIN before \ {k} : r \in DOMAIN before[j] /\ x \in DOMAIN before[j][r]}) :
     LET own == IF x \in DOMAIN before[k][r] THEN <<before[k][r][x]>> ELSE <<>>
         all == own \o [i \in 1..Len(o) |-> before[o[i]][r][x]]
         F[i \in 1..Len(all)] == IF i = 1 THEN all[1] ELSE (F[i - 1] + all[i]) \div 2
     IN all # <<>> /\ v - F[Len(all)] \in -2..2

Names(before, r) == UNION {IF r \in DOMAIN before[j] THEN DOMAIN before[j][r] ELSE {} : j \in DOMAIN before}

CollectiveOk(before, after) ==
  /\ DOMAIN after = DOMAIN before
  /\ \A k \in DOMAIN before :
       /\ DOMAIN after[k] = DOMAIN before[k]
       /\ \A r \in DOMAIN before[k] :
            /\ DOMAIN after[k][r] = Names(before, r)
            /\ \A x \in DOMAIN after[k][r] : EntryOk(before, k, r, x, after[k][r][x])
=============================================================================
