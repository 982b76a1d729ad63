------------------------------- MODULE Apollo -------------------------------
(***************************************************************************)
(* The Apollo runtime as a state machine: an application creates regions   *)
(* and then, in any order, begins executions (synchronous, at most one in  *)
(* flight per region, or asynchronous, any number), sets features, asks    *)
(* for policies, ends executions, trains, polls, while the device finishes *)
(* asynchronous executions at any time after their end; finally it shuts   *)
(* down. One action per public call. The effects are those of ApolloCore;  *)
(* this module adds the environment, ghost variables that account for      *)
(* every execution, and the properties.                                    *)
(*                                                                         *)
(* hist records the calls; TLC prints it for complete behaviours (Gen) and *)
(* the conformance checks replay it into the real library.                 *)
(***************************************************************************)
EXTENDS ApolloCore, Json

CONSTANTS Setup,    \* sequence of [r, nf, np, min, mdl, par, exp] : regions to create
          Conf,     \* configuration record
          Kinds,    \* subset of {"sync", "async"}
          FeatVals, \* feature values the application uses
          Metrics,  \* values for durations and metrics
          MaxExec,  \* executions begun at most
          MaxOps,   \* other calls (train, poll, ...) at most
          Atomic,   \* TRUE: begin, features and policy request in one step
          Early,    \* TRUE: the device may be left unfinished at shutdown
          Gen       \* TRUE: print complete behaviours

VARIABLES S,     \* state of the library
          n,     \* executions begun
          ops,   \* other calls made
          phase, \* "run" | "down"
          ghost, \* per execution: times ended, times collected, measured value
          acc,   \* per region: sequence of recorded <<features, policy, value>>
          hist

vars == <<S, n, ops, phase, ghost, acc, hist>>

R0 == Setup[1].r
Names == {Setup[i].r : i \in DOMAIN Setup}
SetupState ==
  LET Op(T, d) == AddRegion(T, d.r, [i \in 1..Len(Setup) |-> Setup[i].r],
                    NewRegion(d.nf, d.np, d.min, d.mdl, d.par, d.exp,
                              d.mdl \in {"DecisionTree", "RandomForest", "PolicyNet"}))
  IN FoldSeq2(Op, InitS(Conf), Setup)

Init == /\ S = SetupState
        /\ n = 0 /\ ops = 0 /\ phase = "run"
        /\ ghost = [c \in {} |-> 0]
        /\ acc = [r \in Names |-> <<>>]
        /\ hist = <<>>

Cid(i) == "c" \o ToString(i)
Open == {c \in DOMAIN S.ctx : S.ctx[c].st = "open"}
Pend == {c \in DOMAIN S.ctx : S.ctx[c].st = "pend"}
Named(r) == CHOOSE i \in DOMAIN Setup : Setup[i].r = r

(* account for what the last transformer did *)
Account(T) ==
  LET Op(g, e) == [g EXCEPT ![e.c] = [@ EXCEPT !.col = @ + 1, !.val = e.m]]
      Ap(a, e) == IF e.rec THEN [a EXCEPT ![e.r] = Append(@, <<T.ctx[e.c].feats, T.ctx[e.c].pol, e.m>>)] ELSE a
  IN /\ ghost' = FoldSeq2(Op, ghost, T.log.col)
     /\ acc' = FoldSeq2(Ap, acc, T.log.col)

Call(T, h) == S' = T /\ Account(T) /\ hist' = Append(hist, h)

C0 == ClearLog(S)

-----------------------------------------------------------------------------
(* Calls                                                                    *)

CanBegin(r, kind) ==
  /\ phase = "run" /\ n < MaxExec
  /\ kind = "sync" => ~\E c \in Open : S.ctx[c].r = r /\ S.ctx[c].kind = "sync"

Started(c) == ghost' = (c :> [end |-> 0, col |-> 0, val |-> 0]) @@ ghost

DoBegin(r, kind, m) ==
  LET c == Cid(n + 1) IN
  /\ CanBegin(r, kind)
  /\ ~Atomic
  /\ S' = Begin(C0, r, c, kind, <<>>, IF kind = "async" THEN m ELSE 0)
  /\ Started(c)
  /\ n' = n + 1
  /\ hist' = Append(hist, [o |-> "begin", r |-> r, c |-> c, k |-> kind, m |-> m])
  /\ UNCHANGED <<ops, phase, acc>>

DoFeat(c, v) ==
  /\ c \in Open /\ S.ctx[c].pol = -1
  /\ Len(S.ctx[c].feats) < S.reg[S.ctx[c].r].nf
  /\ Call(SetFeature(C0, c, v), [o |-> "feat", c |-> c, v |-> v])
  /\ UNCHANGED <<n, ops, phase>>

Ready(c) == c \in Open /\ Len(S.ctx[c].feats) = S.reg[S.ctx[c].r].nf

DoPolicy(c) ==
  /\ Ready(c) /\ S.ctx[c].pol = -1
  /\ \E p \in Choices(S.reg[S.ctx[c].r], S.ctx[c].feats) : S' = GetPolicy(C0, c, p)
  /\ hist' = Append(hist, [o |-> "pol", c |-> c])
  /\ UNCHANGED <<n, ops, phase, ghost, acc>>

(* begin, all features and the policy request at once                       *)
DoLaunch(r, kind, m, k) ==
  LET c == Cid(n + 1)
      T == Begin(C0, r, c, kind, k, IF kind = "async" THEN m ELSE 0)
  IN /\ Atomic /\ CanBegin(r, kind)
     /\ \E p \in Choices(T.reg[r], k) : S' = GetPolicy(T, c, p)
     /\ Started(c)
     /\ n' = n + 1
     /\ hist' = Append(hist, [o |-> "launch", r |-> r, c |-> c, k |-> kind, m |-> m, f |-> k])
     /\ UNCHANGED <<ops, phase, acc>>

Ended(c) == [ghost EXCEPT ![c].end = @ + 1]

DoEnd(c, m) ==
  /\ c \in Open /\ S.ctx[c].pol # -1
  /\ LET T == End(Tick(C0, IF S.ctx[c].kind = "sync" THEN m ELSE 0), c) IN
     /\ S' = T
     /\ LET g == [ghost EXCEPT ![c].end = @ + 1]
            Op(a, e) == [a EXCEPT ![e.c] = [@ EXCEPT !.col = @ + 1, !.val = e.m]]
            Ap(a, e) == IF e.rec THEN [a EXCEPT ![e.r] = Append(@, <<T.ctx[e.c].feats, T.ctx[e.c].pol, e.m>>)] ELSE a
        IN ghost' = FoldSeq2(Op, g, T.log.col) /\ acc' = FoldSeq2(Ap, acc, T.log.col)
     /\ hist' = Append(hist, [o |-> "end", c |-> c, m |-> IF S.ctx[c].kind = "sync" THEN m ELSE 0])
  /\ UNCHANGED <<n, ops, phase>>

DoEndMetric(c, m) ==
  /\ c \in Open /\ S.ctx[c].pol # -1
  /\ LET T == EndMetric(C0, c, m) IN
     /\ S' = T
     /\ LET g == [ghost EXCEPT ![c].end = @ + 1]
            Op(a, e) == [a EXCEPT ![e.c] = [@ EXCEPT !.col = @ + 1, !.val = e.m]]
            Ap(a, e) == IF e.rec THEN [a EXCEPT ![e.r] = Append(@, <<T.ctx[e.c].feats, T.ctx[e.c].pol, e.m>>)] ELSE a
        IN ghost' = FoldSeq2(Op, g, T.log.col) /\ acc' = FoldSeq2(Ap, acc, T.log.col)
     /\ hist' = Append(hist, [o |-> "endm", c |-> c, m |-> m])
  /\ UNCHANGED <<n, ops, phase>>

(* the device finishes an execution (only after its end was recorded)       *)
DoDone(c) ==
  /\ c \in Pend /\ ~S.ctx[c].done /\ phase = "run"
  /\ Call(Done(C0, c), [o |-> "done", c |-> c])
  /\ UNCHANGED <<n, ops, phase>>

Other(T, h) == phase = "run" /\ ops < MaxOps /\ Call(T, h) /\ ops' = ops + 1 /\ UNCHANGED <<n, phase>>

DoTrain(r, collect, force) ==
  /\ ~S.cfg.single
  /\ Other(TrainRegion(C0, r, ops, collect, force), [o |-> "train", r |-> r, s |-> ops, c |-> collect, f |-> force])
DoTrainAll(collect) == Other(TrainAll(C0, ops, collect), [o |-> "traina", s |-> ops, c |-> collect])
DoCollect(r) == Other(CollectPending(C0, r), [o |-> "collect", r |-> r])

(* shutdown: what is pending is collected as the device finishes it, region *)
(* by region, with global-period training switched off                      *)
RECURSIVE Drain(_, _)
Drain(T, rs) ==
  IF rs = <<>> THEN T
  ELSE LET r == Head(rs)
           fin == [T EXCEPT !.cfg.gper = 0,
                            !.ctx = [c \in DOMAIN T.ctx |-> IF c \in Range(T.reg[r].pend)
                                                           THEN [T.ctx[c] EXCEPT !.done = TRUE] ELSE T.ctx[c]]]
       IN Drain(CollectPending(fin, r), Tail(rs))

DoExit ==
  /\ phase = "run" /\ Open = {} /\ n = MaxExec
  /\ Early \/ \A c \in Pend : S.ctx[c].done
  /\ phase' = "down"
  /\ LET T == Drain(C0, S.ord) IN S' = T /\ Account(T)
  /\ hist' = Append(hist, [o |-> "exit"])
  /\ UNCHANGED <<n, ops>>

Vecs(r) == [1..(S.reg[r].nf) -> FeatVals]

Next ==
  \/ \E r \in Names, k \in Kinds, m \in Metrics :
        \/ DoBegin(r, k, m)
        \/ \E f \in Vecs(r) : DoLaunch(r, k, m, f)
  \/ \E c \in Open : \/ \E v \in FeatVals : DoFeat(c, v)
                     \/ DoPolicy(c)
                     \/ \E m \in Metrics : DoEnd(c, m) \/ DoEndMetric(c, m)
  \/ \E c \in Pend : DoDone(c)
  \/ \E r \in Names : \/ \E b, f \in BOOLEAN : DoTrain(r, b, f)
                      \/ DoCollect(r)
  \/ \E b \in BOOLEAN : DoTrainAll(b)
  \/ DoExit

Spec == Init /\ [][Next]_vars

View == <<S, n, ops, phase, ghost, acc>>
PrintHist == (Gen /\ phase = "down") => PrintT("HIST " \o ToJson(hist))

-----------------------------------------------------------------------------
(* Properties                                                               *)

(* C01 *)
PolicyInRange == \A c \in DOMAIN S.ctx : S.ctx[c].pol \in -1..(S.reg[S.ctx[c].r].np - 1)

(* C03: an execution is collected at most once, only after it was ended,    *)
(* and after shutdown every ended execution was collected exactly once;     *)
(* an asynchronous one is collected only after the device finished it (or   *)
(* with the metric the application gave)                                    *)
ExactlyOnce ==
  \A c \in DOMAIN ghost :
     LET g == ghost[c] x == S.ctx[c] IN
     /\ g.col <= g.end /\ g.end <= 1
     /\ (x.st = "gone") <=> (g.col = 1)
     /\ (x.st = "pend") <=> (g.end = 1 /\ g.col = 0)
     /\ phase = "down" => g.col = g.end

PendConsistent ==
  /\ \A r \in Names : /\ \A i, j \in DOMAIN S.reg[r].pend : i # j => S.reg[r].pend[i] # S.reg[r].pend[j]
                      /\ \A i \in DOMAIN S.reg[r].pend : S.ctx[S.reg[r].pend[i]].st = "pend"
                                                         /\ S.ctx[S.reg[r].pend[i]].r = r
  /\ \A c \in Pend : c \in Range(S.reg[S.ctx[c].r].pend)
  /\ phase = "down" => Pend = {}

(* C03/C04: a region's dataset is exactly the fold of what it recorded, in  *)
(* order, each under its own features and policy                            *)
DataIsFold ==
  \A r \in Names :
    LET Op(d, e) == Insert(d, e[1], e[2], e[3])
    IN S.reg[r].data = FoldSeq2(Op, EmptyFn, acc[r])

(* C04: averages stay within the range of the measurements                  *)
AvgBounded ==
  \A r \in Names : \A x \in DOMAIN S.reg[r].data :
     LET ms == {acc[r][i][3] : i \in {j \in DOMAIN acc[r] : <<acc[r][j][1], acc[r][j][2]>> = x}}
     IN (\E m \in ms : m <= S.reg[r].data[x]) /\ (\E m \in ms : S.reg[r].data[x] <= m)

(* C05: the best policy of a measured vector was measured with it           *)
BestMeasured ==
  \A r \in Names : LET d == S.reg[r].data IN
     \A k \in Keys(d) : BestOf(d, k) # {} /\ \A p \in BestOf(d, k) : \A x \in DOMAIN d : x[1] = k => d[<<k, p>>] <= d[x]

(* C15: counts                                                              *)
Counts ==
  /\ S.tot = Cardinality({c \in DOMAIN ghost : ghost[c].col = 1})
  /\ \A r \in Names : S.reg[r].idx = Cardinality({c \in DOMAIN S.ctx : S.ctx[c].r = r})

(* C08: a model that learns once is trained on data, and only then frozen   *)
Frozen ==
  \A r \in Names : LET R == S.reg[r] IN
     /\ R.mdl \in Learning => (R.tr <=> R.gen = 0)
     /\ R.gen > 0 => DOMAIN R.trn # {}
     /\ R.mdl \notin (Learning \cup {"PolicyNet"}) => ~R.tr

(* C08: without any trigger configured, only explicit calls train           *)
NoTrigger == Conf.gper = 0 /\ Conf.rper = 0 /\ \A i \in DOMAIN Setup : Setup[i].min = 0
OnlyExplicit == [][ \A r \in Names : S'.reg[r].gen # S.reg[r].gen =>
                       \/ ops' = ops + 1
                       \/ ~NoTrigger ]_vars

(* C08: the minimum-data trigger leaves no trainable region over its minimum *)
MinReached ==
  \A r \in Names : LET R == S.reg[r] IN
     (R.mdl \in Learning /\ R.min > 0 /\ Conf.gper = 0 /\ Conf.rper = 0 /\ ~Conf.single)
        => (Cardinality(DOMAIN R.data) >= R.min => ~R.tr)

(* C08: periods: a trainable learner cannot have passed a period boundary   *)
GlobalPeriod ==
  (Conf.gper > 0 /\ phase = "run") =>
     \A r \in Names : S.reg[r].mdl \in Learning /\ S.reg[r].tr /\ DOMAIN S.reg[r].data # {}
        => Len(acc[r]) < Conf.gper * (1 + Cardinality(Names))

(* C20: a call on one region leaves the others alone unless all are trained *)
Isolated ==
  [][ LET touched == {r \in Names : S'.reg[r] # S.reg[r]} IN
      \/ Cardinality(touched) <= 1
      \/ (ops' # ops /\ Conf.gper = 0)
      \/ Conf.gper > 0
      \/ Conf.single
      \/ phase' # phase ]_vars

(* C14: after training all with a single model everybody has the same       *)
SingleSame ==
  Conf.single => \A r, q \in Names : S.reg[r].gen > 0 /\ S.reg[q].gen > 0 => S.reg[r].trn = S.reg[q].trn

(* C21: the value of a synchronous execution is a duration, of an           *)
(* asynchronous one its device time, unless a metric was given              *)
Values == \A c \in DOMAIN ghost : ghost[c].col = 1 => ghost[c].val >= 0
=============================================================================
