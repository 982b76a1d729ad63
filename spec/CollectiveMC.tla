---------------------------- MODULE CollectiveMC ----------------------------
(* Ranks record measurements in their own regions and train together; what  *)
(* a user relies on about the result, for all histories of a small system.  *)
EXTENDS Collective, TLC
CONSTANTS NR, MaxRec, MaxTrain
Ranks == 1..NR
Regions == {"a", "b"}
Entries == {<<"1", 0>>, <<"1", 1>>}
Vals == {64, 1024}
Own == [k \in Ranks |-> IF k = 1 THEN {"a", "b"} ELSE {"a"}]    \* rank 1 has a region the others lack
VARIABLES data, nrec, ntr, last      \* last: data before the last training
vars == <<data, nrec, ntr, last>>
E0 == [x \in {} |-> 0]
Init == data = [k \in Ranks |-> [r \in Own[k] |-> E0]] /\ nrec = 0 /\ ntr = 0 /\ last = <<>>
Record(k, r, x, v) == /\ nrec < MaxRec
                      /\ data' = [data EXCEPT ![k][r] = AddTo(@, [y \in {x} |-> v])]
                      /\ nrec' = nrec + 1 /\ UNCHANGED <<ntr, last>>
Train == /\ ntr < MaxTrain
         /\ \E o \in [Ranks -> Orders(Ranks)] :
              data' = [k \in Ranks |-> [r \in Own[k] |-> Take(data[k][r], data, SelectSeq(o[k], LAMBDA j : j # k), r)]]
         /\ last' = data /\ ntr' = ntr + 1 /\ UNCHANGED nrec
Next == Train \/ \E k \in Ranks : \E r \in Own[k], x \in Entries, v \in Vals : Record(k, r, x, v)
Spec == Init /\ [][Next]_vars

Accept == [][Train => CollectiveOk(data, data')]_vars
NoLoss == [][Train => \A k, j \in Ranks : \A r \in Own[k] \cap Own[j] : DOMAIN data[j][r] \subseteq DOMAIN data'[k][r]]_vars
NoneInvented == [][Train => \A k \in Ranks : \A r \in Own[k] : \A x \in DOMAIN data'[k][r] : \E j \in Ranks : r \in Own[j] /\ x \in DOMAIN data[j][r]]_vars
Alone == [][Train => \A k \in Ranks : \A r \in Own[k] : (\A j \in Ranks \ {k} : r \notin Own[j] \/ data[j][r] = E0) => data'[k][r] = data[k][r]]_vars
Bounds == [][Train => \A k \in Ranks : \A r \in Own[k] : \A x \in DOMAIN data'[k][r] :
             LET V == {data[j][r][x] : j \in {i \in Ranks : r \in Own[i] /\ x \in DOMAIN data[i][r]}}
             IN \E lo, hi \in V : lo <= data'[k][r][x] /\ data'[k][r][x] <= hi]_vars
(* counting one's own data twice is never accepted when it makes a difference *)
Twice == [][Train => \A k \in Ranks : \A r \in Own[k] : \A j \in Ranks \ {k} :
             (NR = 2 /\ r \in Own[j] /\ \E x \in DOMAIN data[k][r] \cap DOMAIN data[j][r] : data[k][r][x] - data[j][r][x] \notin -16..16)
             => ~CollectiveOk(data, [data' EXCEPT ![k][r] = AddTo(@, data[k][r])])]_vars
SameKeys == [][Train => \A k, j \in Ranks : DOMAIN data'[k]["a"] = DOMAIN data'[j]["a"]]_vars
=============================================================================
