--------------------------- MODULE CollectiveTrace ---------------------------
(* Recorded collective trainings of the real library: for every rank its    *)
(* datasets before and after, and the answers of its models, judged by      *)
(* Collective and CART.                                                     *)
EXTENDS Collective, ApolloCore, CART, Json, TLC
CONSTANT Focus
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, run, bad
vars == <<l, run, bad>>
Ev == Trace[l]

(* [r, k, p, u] entries of a rank as datasets of its regions                *)
Data(regs, s) == [r \in {regs[i] : i \in DOMAIN regs} |->
                    LET I == {i \in DOMAIN s : s[i].r = r} IN
                    [x \in {<<s[i].k, s[i].p>> : i \in I} |-> s[CHOOSE i \in I : <<s[i].k, s[i].p>> = x].u]]
All(side) == [k \in DOMAIN side |-> Data(Ev.regs[k], side[k])]

Mine(lbl) == {x \in lbl : (x \in {"allgather", "status"} /\ Focus = "C22") \/ (x # "allgather" /\ Focus = "C13")}
Say(lbl) == IF Mine(lbl) = {} \/ bad THEN bad' = bad
            ELSE PrintT(<<"MISMATCH", run, l, Mine(lbl)>>) /\ bad' = TRUE

(* the traced exchange: every rank writes one row for every entry of every   *)
(* rank (features cut to integers, 6 digits of the value); Ev.ag[k] are the  *)
(* rows of rank k, Ev.cut pairs a feature vector with its integers           *)
Near(x, u) == Abs(x - u) <= 2 + (Abs(u) \div 50000)
AgOk(b) ==
  LET cut(v) == Ev.cut[CHOOSE z \in DOMAIN Ev.cut : Ev.cut[z].k = v].t
      E == UNION {UNION {{[rank |-> ToString(j - 1), r |-> r, t |-> cut(x[1]), p |-> ToString(x[2]), u |-> b[j][r][x], k |-> x[1]]
                          : x \in DOMAIN b[j][r]} : r \in DOMAIN b[j]} : j \in DOMAIN b}
      alike(q, e) == q.rank = e.rank /\ q.r = e.r /\ q.t = e.t /\ q.p = e.p
      same(q, e) == alike(q, e) /\ Near(q.u, e.u)
  IN \A k \in DOMAIN Ev.ag : LET R == Ev.ag[k] IN
       /\ Len(R) = Cardinality(E)
       /\ \A i \in DOMAIN R : \E e \in E : same(R[i], e)
       /\ \A e \in E : /\ \E i \in DOMAIN R : same(R[i], e)
                        /\ Cardinality({h \in DOMAIN R : alike(R[h], e)}) = Cardinality({f \in E : alike(f, e)})

TrainSet(d, pts) == [i \in DOMAIN pts |-> [x |-> pts[i].x, y |-> CHOOSE p \in BestOf(d, pts[i].k) : TRUE]]
IsTrainSet(d, pts) == /\ {pts[i].k : i \in DOMAIN pts} = Keys(d)
                      /\ \A i \in DOMAIN pts : Cardinality(BestOf(d, pts[i].k)) = 1
TreesOk(after) == \A i \in DOMAIN Ev.trees :
   LET t == Ev.trees[i] d == after[t.rank][t.r] IN
   IsTrainSet(d, t.pts) => TreeExplains(TrainSet(d, t.pts), t.q, t.depth)

Step_run == Ev.e = "run" /\ run' = Ev.run /\ bad' = FALSE
(* `own`: measurements each rank records in the same call, before training  *)
Step_coll ==
  /\ Ev.e = "coll"
  /\ LET b0 == All(Ev.before)
         b == [k \in DOMAIN b0 |-> [r \in DOMAIN b0[k] |->
                 LET I == {i \in DOMAIN Ev.own[k] : Ev.own[k][i].r = r} IN
                 IF I = {} THEN b0[k][r] ELSE AddTo(b0[k][r], [x \in {<<Ev.own[k][i].k, Ev.own[k][i].p>> : i \in I} |-> Ev.own[k][CHOOSE i \in I : TRUE].u])]]
         a == All(Ev.after)
     IN Say((IF CollectiveOk(b, a) THEN {} ELSE {"gather"}) \cup (IF TreesOk(a) THEN {} ELSE {"tree"})
            \cup (IF \E i \in DOMAIN Ev.learned : ~Ev.learned[i] THEN {"not-trained"} ELSE {})
            \cup (IF Ev.ag # <<>> /\ ~AgOk(b) THEN {"allgather"} ELSE {}))
  /\ UNCHANGED run
Step_fin == Ev.e = "fin" /\ Say(IF Ev.status = "ok" THEN {} ELSE {"status"}) /\ UNCHANGED run
Init == l = 1 /\ run = "" /\ bad = FALSE
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Step_run \/ Step_coll \/ Step_fin)
Spec == Init /\ [][Next]_vars
View == l
Accepted == PrintT(<<"TRACE-END", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
