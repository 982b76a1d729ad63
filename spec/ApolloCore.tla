----------------------------- MODULE ApolloCore -----------------------------
(***************************************************************************)
(* The Apollo runtime as pure state transformers over one state record S.  *)
(* Every public call of the library is one operator; Apollo.tla turns them *)
(* into actions (model checking, behaviour generation), ApolloTrace.tla    *)
(* replays recorded executions of the real library against them.           *)
(*                                                                         *)
(*  S.cfg  configuration: persist, gper (global period), rper (per-region  *)
(*         period), store (store models), single (single-model mode)       *)
(*  S.tot  executions collected so far, over all regions                   *)
(*  S.now  monotonic clock                                                 *)
(*  S.ord  region names in training order                                  *)
(*  S.reg  region name -> region record                                    *)
(*  S.ctx  execution id -> execution record                                *)
(*  S.log  what the current call did: collected executions, trainings      *)
(*                                                                         *)
(* A feature vector is a sequence; a dataset is a function from            *)
(* <<feature vector, policy>> to an average (integer units).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Learning == {"DecisionTree", "RandomForest"}      \* train once, then frozen
EmptyFn == [x \in {} |-> 0]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE FoldSeq2(_, _, _)
FoldSeq2(Op(_, _), acc, s) ==
  IF s = <<>> THEN acc ELSE FoldSeq2(Op, Op(acc, Head(s)), Tail(s))

-----------------------------------------------------------------------------
(* Datasets (C04, C05)                                                      *)

Avg(old, new) == (old + new) \div 2

Insert(d, k, p, m) ==
  IF <<k, p>> \in DOMAIN d
  THEN [d EXCEPT ![<<k, p>>] = Avg(@, m)]
  ELSE (<<k, p>> :> m) @@ d

Keys(d) == {e[1] : e \in DOMAIN d}
MinOf(d, k) == LET vs == {d[e] : e \in {x \in DOMAIN d : x[1] = k}}
               IN CHOOSE v \in vs : \A w \in vs : v <= w
(* the policies with minimal average for k (any of them is "the best")      *)
BestOf(d, k) == LET m == MinOf(d, k)
                IN {e[2] : e \in {x \in DOMAIN d : x[1] = k /\ d[x] = m}}

(* merging dataset e into d, entry by entry                                 *)
Merge(d, e) == [x \in DOMAIN d \cup DOMAIN e |->
                  IF x \in DOMAIN d /\ x \in DOMAIN e THEN Avg(d[x], e[x])
                  ELSE IF x \in DOMAIN d THEN d[x] ELSE e[x]]

-----------------------------------------------------------------------------
(* Regions and executions                                                   *)

NewRegion(nf, np, min, mdl, par, exp, tr) ==
  [nf |-> nf, np |-> np, min |-> min, mdl |-> mdl, par |-> par, exp |-> exp,
   tr |-> tr, rr |-> -1, idx |-> 0, data |-> EmptyFn, pend |-> <<>>,
   trn |-> EmptyFn, gen |-> 0]

InitS(cfg) == [cfg |-> cfg, tot |-> 0, now |-> 0, ord |-> <<>>,
               reg |-> [x \in {} |-> 0], ctx |-> [x \in {} |-> 0],
               log |-> [col |-> <<>>, trn |-> <<>>]]

ClearLog(S) == [S EXCEPT !.log = [col |-> <<>>, trn |-> <<>>]]

Records(S, r) == S.cfg.persist \/ S.reg[r].tr

-----------------------------------------------------------------------------
(* Training (C08, C14)                                                      *)

(* the model of region r is trained on dataset d                            *)
TrainModel(S, r, d, step) ==
  [S EXCEPT !.reg[r].trn = d, !.reg[r].gen = @ + 1,
            !.reg[r].tr = IF S.reg[r].mdl \in Learning THEN FALSE ELSE @,
            !.log.trn = Append(@, [r |-> r, step |-> step, n |-> Cardinality(DOMAIN d), d |-> d])]

RECURSIVE TrainRegion(_, _, _, _, _), TrainAll(_, _, _), AutoTrain(_, _),
          Collect(_, _, _), CollectSeq(_, _), TrainEach(_, _, _, _)

CollectPending(S, r) ==
  LET p == S.reg[r].pend
      ready == SelectSeq(p, LAMBDA c : S.ctx[c].done)
      rest  == SelectSeq(p, LAMBDA c : ~S.ctx[c].done)
  IN [CollectSeq(S, ready) EXCEPT !.reg[r].pend = rest]

CollectSeq(S, cs) ==
  IF cs = <<>> THEN S
  ELSE CollectSeq(Collect(S, Head(cs), S.ctx[Head(cs)].m), Tail(cs))

TrainRegion(S, r, step, collect, force) ==
  IF ~force /\ ~S.reg[r].tr THEN S
  ELSE LET S1 == IF collect THEN CollectPending(S, r) ELSE S
       IN IF DOMAIN S1.reg[r].data = {} THEN S1
          ELSE TrainModel(S1, r, S1.reg[r].data, step)

TrainEach(S, rs, step, collect) ==
  IF rs = <<>> THEN S
  ELSE TrainEach(TrainRegion(S, Head(rs), step, collect, FALSE), Tail(rs), step, collect)

Union(S) == LET Op(acc, r) == Merge(acc, S.reg[r].data) IN FoldSeq2(Op, EmptyFn, S.ord)

TrainAll(S, step, collect) ==
  IF S.cfg.single
  THEN LET u == Union(S)
           Op(acc, r) == TrainModel(acc, r, u, step)
       IN IF DOMAIN u = {} THEN S ELSE FoldSeq2(Op, S, S.ord)
  ELSE TrainEach(S, S.ord, step, collect)

(* after each collected execution of region r                               *)
AutoTrain(S, r) ==
  LET R == S.reg[r] IN
  IF ~R.tr THEN S
  ELSE IF S.cfg.gper > 0 /\ S.tot % S.cfg.gper = 0 THEN TrainAll(S, S.tot, FALSE)
  ELSE IF S.cfg.rper > 0 /\ R.idx % S.cfg.rper = 0 THEN TrainRegion(S, r, R.idx, FALSE, FALSE)
  ELSE IF R.min > 0 /\ R.min <= Cardinality(DOMAIN R.data)
       THEN TrainRegion(S, r, R.idx, FALSE, FALSE)
  ELSE S

-----------------------------------------------------------------------------
(* Collection of one execution (C03)                                        *)

Collect(S, c, m) ==
  LET x  == S.ctx[c]
      r  == x.r
      S1 == IF Records(S, r) THEN [S EXCEPT !.reg[r].data = Insert(@, x.feats, x.pol, m)] ELSE S
      S2 == [S1 EXCEPT !.tot = @ + 1, !.ctx[c].st = "gone",
                       !.log.col = Append(@, [c |-> c, r |-> r, m |-> m, rec |-> Records(S, r)])]
  IN AutoTrain(S2, r)

-----------------------------------------------------------------------------
(* Public calls                                                             *)

AddRegion(S, r, ord, R) == [S EXCEPT !.reg = (r :> R) @@ S.reg, !.ord = ord]

Begin(S, r, c, kind, feats, dur) ==
  LET S1 == [S EXCEPT !.reg[r].idx = @ + 1]
      x  == [r |-> r, kind |-> kind, feats |-> feats, pol |-> -1, no |-> S.reg[r].idx,
             st |-> "open", done |-> FALSE, t0 |-> S.now, m |-> dur]
  IN [S1 EXCEPT !.ctx = (c :> x) @@ S.ctx]

SetFeature(S, c, v) == [S EXCEPT !.ctx[c].feats = Append(@, v)]

(* which choices a model may make for features k (C01, C02)                 *)
ExplorerKind(R) == IF R.mdl \in Learning THEN (IF R.tr THEN R.exp ELSE "learned")
                   ELSE R.mdl
Choices(R, k) ==
  LET all == 0..(R.np - 1) IN
  CASE ExplorerKind(R) = "Static"     -> {R.par}
    [] ExplorerKind(R) = "RoundRobin" -> {(R.rr + 1) % R.np}
    [] ExplorerKind(R) = "Random"     -> all
    [] ExplorerKind(R) = "PolicyNet"  -> all
    [] ExplorerKind(R) = "DatasetMap" -> IF k \in Keys(R.trn) THEN BestOf(R.trn, k) ELSE {}
    [] ExplorerKind(R) = "learned"    -> IF DOMAIN R.trn = {} THEN all
                                         ELSE UNION {BestOf(R.trn, x) : x \in Keys(R.trn)}
    [] OTHER -> all
Advance(R, p) == IF ExplorerKind(R) = "RoundRobin" THEN [R EXCEPT !.rr = p] ELSE R

GetPolicy(S, c, p) ==
  LET r == S.ctx[c].r
  IN [S EXCEPT !.ctx[c].pol = p, !.reg[r] = Advance(@, p)]

End(S, c) ==
  LET x == S.ctx[c] r == x.r IN
  IF x.kind = "sync" THEN Collect(S, c, S.now - x.t0)
  ELSE CollectPending([S EXCEPT !.reg[r].pend = Append(@, c), !.ctx[c].st = "pend"], r)

EndMetric(S, c, m) == CollectPending(Collect(S, c, m), S.ctx[c].r)

Done(S, c) == [S EXCEPT !.ctx[c].done = TRUE]

Tick(S, d) == [S EXCEPT !.now = @ + d]

(* a model file is loaded into the region's model                           *)
LoadModel(S, r) == IF S.reg[r].mdl \in Learning
                   THEN [S EXCEPT !.reg[r].tr = FALSE, !.reg[r].trn = EmptyFn] ELSE S

=============================================================================
