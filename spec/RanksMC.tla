------------------------------ MODULE RanksMC ------------------------------
(* Ranks with local training (C24): each rank trains and loads models of its *)
(* regions; the directory of the files is shared. Whatever the interleaving, *)
(* a rank's files hold what that rank wrote last, and what a rank does is    *)
(* what it would do alone.                                                   *)
EXTENDS FileNames, Sequences
CONSTANTS NR, MaxOps

Ranks == {IF i = 1 THEN 0 ELSE IF i = 2 THEN 1 ELSE 10 : i \in 1..NR}
Regions == {"a", "1-a", "latest-rank-1-a"}

VARIABLES files,   \* shared: name -> content
          mine,    \* what each rank would have in a directory of its own
          model,   \* rank -> region -> content of its model (0: none)
          alone,   \* the same for the rank alone in a directory
          cnt      \* operations of each rank so far
vars == <<files, mine, model, alone, cnt>>
E0 == [x \in {} |-> 0]
Init == /\ files = E0 /\ mine = [k \in Ranks |-> E0]
        /\ model = [k \in Ranks |-> [r \in Regions |-> 0]] /\ alone = model
        /\ cnt = [k \in Ranks |-> 0]
(* contents are named by rank and the rank's operation count                 *)
Fresh(k) == 100 * (k + 1) + cnt[k]
Writes(k, r, c) == (StepFileOf("m", "T", cnt[k], k, r) :> c) @@ (LatestFileOf("m", "T", k, r) :> c)
                   @@ (BestFileOf(cnt[k], k, r) :> c) @@ (PolicyFileOf(k) :> c)
                   @@ (CsvFileOf("t", "T", k, r) :> c) @@ (AllCsvFileOf("t", k) :> c)
Train(k, r) == /\ files' = Writes(k, r, Fresh(k)) @@ files
               /\ mine' = [mine EXCEPT ![k] = Writes(k, r, Fresh(k)) @@ @]
               /\ model' = [model EXCEPT ![k][r] = Fresh(k)] /\ alone' = [alone EXCEPT ![k][r] = Fresh(k)]
Load(k, r) == LET f == LatestFileOf("m", "T", k, r) IN
              /\ f \in DOMAIN files
              /\ model' = [model EXCEPT ![k][r] = files[f]]
              /\ alone' = [alone EXCEPT ![k][r] = IF f \in DOMAIN mine[k] THEN mine[k][f] ELSE -1]
              /\ UNCHANGED <<files, mine>>
Next == \E k \in Ranks, r \in Regions :
          /\ cnt[k] < MaxOps /\ (Train(k, r) \/ Load(k, r))
          /\ cnt' = [cnt EXCEPT ![k] = @ + 1]
Spec == Init /\ [][Next]_vars

Independent == model = alone
Disjoint == \A k, j \in Ranks : k # j => DOMAIN mine[k] \cap DOMAIN mine[j] = {}
Complete == /\ DOMAIN files = UNION {DOMAIN mine[k] : k \in Ranks}
            /\ \A k \in Ranks : \A f \in DOMAIN mine[k] : files[f] = mine[k][f]

(* the same for many names and ranks                                         *)
Some == {"a", "1", "0-a", "a-1", "1-a", "latest-rank-1-a", "step-1-rank-0-a", "a-rank-1", "rank-1"}
RK == 0..12
ASSUME \A k, j \in RK : \A r, q \in Some : (k # j) =>
         /\ OptimalFileOf(k, r) # OptimalFileOf(j, q)
         /\ CsvFileOf("t", "T", k, r) # CsvFileOf("t", "T", j, q)
         /\ LatestFileOf("m", "T", k, r) # LatestFileOf("m", "T", j, q)
         /\ \A s, t \in {0, 1, 11} : StepFileOf("m", "T", s, k, r) # StepFileOf("m", "T", t, j, q) /\ BestFileOf(s, k, r) # BestFileOf(t, j, q)
=============================================================================
