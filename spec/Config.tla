------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Which configurations are accepted, and what they mean (C12).            *)
(*                                                                         *)
(* A configuration is a record                                             *)
(*   coll, loc, sing, regm : "unset", "0", "1" or "text"  (training modes) *)
(*   bad   : numeric settings of the environment given as other text       *)
(*   env   : model string of the environment, or Unset                     *)
(*   str   : model string given to the region, or Unset                    *)
(*   np    : number of policies of the region                              *)
(* A model string is a name and a sequence of parameters [k, c, n]: key,   *)
(* class of its value and, for class "nat", the number.                    *)
(* Classes: none (no value), nat, neg, real, text, a model name for        *)
(* explore, file (a stored model of this kind), nofile.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unset == [name |-> "", prm |-> <<>>]
DefaultModel == [name |-> "Static", prm |-> <<[k |-> "policy", c |-> "nat", n |-> 0]>>]

Mode(v, default) == IF v = "unset" THEN default ELSE v
On(v) == v = "1"

Models == {"Static", "StaticRegion", "Random", "RoundRobin", "DecisionTree", "RandomForest", "PolicyNet", "DatasetMap", "Optimal"}
Plain == {"Random", "RoundRobin", "DatasetMap", "Optimal"}      \* take no parameters

KeysOf(name) ==
  CASE name = "Static"       -> {"policy"}
    [] name = "DecisionTree" -> {"max_depth", "explore", "load", "load-dataset"}
    [] name = "RandomForest" -> {"num_trees", "max_depth", "explore", "load", "load-dataset"}
    [] name = "PolicyNet"    -> {"lr", "beta", "beta1", "beta2", "threshold", "load", "load-dataset"}
    [] OTHER                 -> {}

IntKeys  == {"policy", "max_depth", "num_trees"}
RealKeys == {"lr", "beta", "beta1", "beta2", "threshold"}

(* value classes with a meaning for a key; the region is called "reg"       *)
ValueOk(name, p) ==
  CASE p.k = "policy"             -> p.c = "nat"
    [] p.k \in IntKeys \ {"policy"} -> p.c = "nat"
    [] p.k \in RealKeys           -> p.c \in {"nat", "neg", "real"}
    [] p.k = "explore"            -> p.c \in {"RoundRobin", "Random", "Static"}
    [] p.k = "load"               -> p.c = "file"
    [] p.k = "load-dataset"       -> p.c = "data"
    [] OTHER                      -> TRUE

Has(m, k) == \E i \in DOMAIN m.prm : m.prm[i].k = k
Get(m, k) == m.prm[CHOOSE i \in DOMAIN m.prm : m.prm[i].k = k /\ \A j \in DOMAIN m.prm : m.prm[j].k = k => i <= j]

ModelOk(m) ==
  CASE m.name \in Plain -> m.prm = <<>> /\ m.name \notin {"DatasetMap", "Optimal"}   \* these need a file: not given here
    [] m.name = "StaticRegion" -> Has(m, "reg") /\ Get(m, "reg").c = "nat"
    [] m.name \in Models -> \A i \in DOMAIN m.prm : m.prm[i].k \in KeysOf(m.name) /\ ValueOk(m.name, m.prm[i])
    [] OTHER -> FALSE

(* the region's string overrides the environment, which overrides the default *)
ModelOf(c) == IF c.str # Unset THEN c.str ELSE IF c.env # Unset THEN c.env ELSE DefaultModel

ModesOk(c, mpi) ==
  LET co == Mode(c.coll, "0") lo == Mode(c.loc, "1")
      si == Mode(c.sing, "0") re == Mode(c.regm, "1")
  IN /\ "text" \notin {co, lo, si, re}
     /\ On(co) # On(lo) /\ On(si) # On(re)
     /\ On(co) => mpi

Verdict(c, mpi) == IF ModesOk(c, mpi) /\ c.bad = <<>> /\ ModelOk(ModelOf(c)) THEN "ok" ELSE "refused"

(* what an accepted configuration means *)
Num(m, k, d) == IF Has(m, k) THEN Get(m, k).n ELSE d
Effective(c) ==
  LET m == ModelOf(c)
      p0 == IF m.name = "StaticRegion" THEN Num(m, "reg", 0) ELSE Num(m, "policy", 0)
  IN [mdl   |-> IF m.name = "StaticRegion" THEN "Static" ELSE m.name,
      par   |-> IF m.name \in {"Static", "StaticRegion"} /\ p0 < c.np THEN p0 ELSE 0,
      exp   |-> IF Has(m, "explore") THEN Get(m, "explore").c ELSE "RoundRobin",
      depth |-> Num(m, "max_depth", 2),
      trees |-> Num(m, "num_trees", 10)]
=============================================================================
