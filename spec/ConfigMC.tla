------------------------------ MODULE ConfigMC ------------------------------
(* Enumerates configurations with their verdicts for replay on the library, *)
(* and checks what a user relies on about the verdicts.                     *)
EXTENDS Config, Json, SequencesExt, TLC

M3 == {"unset", "0", "1"}
Base == [coll |-> "unset", loc |-> "unset", sing |-> "unset", regm |-> "unset", bad |-> <<>>, env |-> Unset, str |-> Unset, np |-> 3]

Modes == {[Base EXCEPT !.coll = a, !.loc = b, !.sing = c, !.regm = d] : a, b, c, d \in M3}
    \cup {[Base EXCEPT !.coll = "text"], [Base EXCEPT !.loc = "text"], [Base EXCEPT !.sing = "text"], [Base EXCEPT !.regm = "text"]}

NumEnv == {"GLOBAL_TRAIN_PERIOD", "PER_REGION_TRAIN_PERIOD", "STORE_MODELS", "TRACE_BEST_POLICIES", "TRACE_CSV",
           "PERSISTENT_DATASETS", "STORE_EXEC_INFO", "TRACE_POLICY", "TRACE_ALLGATHER", "RETRAIN_ENABLE",
           "TRACE_RETRAIN", "RETRAIN_TIME_THRESHOLD", "RETRAIN_REGION_THRESHOLD"}
BadEnv == {[Base EXCEPT !.bad = <<v>>] : v \in NumEnv}

Keys == {"policy", "max_depth", "num_trees", "explore", "load", "load-dataset", "lr", "beta", "beta1", "beta2", "threshold", "reg", "bogus", ""}
ClassesOf(k) == CASE k \in IntKeys \cup {"reg"} -> {"nat", "neg", "text", "none"}
                  [] k \in RealKeys -> {"nat", "real", "neg", "text", "none"}
                  [] k = "explore" -> {"RoundRobin", "Random", "Static", "text", "none"}
                  [] k = "load" -> {"file", "nofile", "none"}
                  [] k = "load-dataset" -> {"data", "nodata"}
                  [] OTHER -> {"none", "nat"}
(* a negative depth or number of trees and a forest without trees are outside the property *)
Sane(p) == ~(p.k \in {"max_depth", "num_trees"} /\ p.c = "neg") /\ ~(p.k = "num_trees" /\ p.c = "nat" /\ p.n = 0)
Prm == {[k |-> k, c |-> c, n |-> n] : k \in Keys, c \in {"nat", "neg", "real", "text", "none", "RoundRobin", "Random", "Static", "file", "nofile", "data", "nodata"}, n \in {0, 1, 2, 4}}
Params == {p \in Prm : p.c \in ClassesOf(p.k) /\ Sane(p) /\ (p.c # "nat" => p.n = 0)}
Names == Models \cup {"Bogus", "decisiontree"}
Strings(n) == IF n = 0 THEN {[name |-> m, prm |-> <<>>] : m \in Names}
              ELSE IF n = 1 THEN {[name |-> m, prm |-> <<p>>] : m \in Names, p \in Params}
              ELSE {[name |-> m, prm |-> <<p, q>>] : m \in Names \ Plain, p, q \in {x \in Params : x.n \in {0, 2}}}
(* two parameters: only where the model knows the first one *)
Two == {s \in Strings(2) : s.prm[1].k \in KeysOf(s.name) \cup (IF s.name = "StaticRegion" THEN {"reg"} ELSE {}) /\ s.prm[1].k # s.prm[2].k}

Good == [name |-> "RoundRobin", prm |-> <<>>]
Wrong == [name |-> "Bogus", prm |-> <<>>]
ByString == {[Base EXCEPT !.str = s] : s \in Strings(0) \cup Strings(1)}
ByEnv == {[Base EXCEPT !.env = s] : s \in Strings(0) \cup Strings(1)}
Both == {[Base EXCEPT !.str = s, !.env = e] : s \in Strings(0) \cup {Unset}, e \in {Good, Wrong, [name |-> "Static", prm |-> <<[k |-> "policy", c |-> "nat", n |-> 2]>>]}}
Deep == {[Base EXCEPT !.str = s] : s \in Two}
Space == Modes \cup BadEnv \cup ByString \cup ByEnv \cup Both

ASSUME \* nothing contradictory is accepted, whatever the rest says
  \A c \in Modes : Verdict(c, FALSE) = "ok" => Mode(c.coll, "0") = "0" /\ Mode(c.loc, "1") = "1" /\ Mode(c.sing, "0") # Mode(c.regm, "1")
ASSUME \A c \in Modes : Verdict(c, TRUE) = "ok" <=> (Mode(c.coll, "0") # Mode(c.loc, "1") /\ Mode(c.sing, "0") # Mode(c.regm, "1") /\ "text" \notin {c.coll, c.loc, c.sing, c.regm})
ASSUME \A c \in BadEnv : Verdict(c, FALSE) = "refused"
ASSUME \* the region's string decides alone
  \A c \in Both : c.str # Unset => Verdict(c, FALSE) = Verdict([c EXCEPT !.env = Unset], FALSE) /\ Effective(c) = Effective([c EXCEPT !.env = Unset])
ASSUME \* a refused parameter stays refused in company
  \A s \in Two : \A i \in 1..2 : (s.name # "StaticRegion" /\ ~ModelOk([s EXCEPT !.prm = <<s.prm[i]>>])) => ~ModelOk(s)
ASSUME \A c \in ByString \cup ByEnv \cup Both : Verdict(c, FALSE) = "ok" => Effective(c).par \in 0..(c.np - 1)

Emit(S) == SetToSeq({[c |-> c, v |-> Verdict(c, FALSE), f |-> Effective(c)] : c \in S})
ASSUME JsonSerialize("configs.json", [space |-> Emit(Space), deep |-> Emit(Deep)])
ASSUME PrintT(<<"CONFIGS", Cardinality(Space), Cardinality(Deep)>>)
=============================================================================
