------------------------------ MODULE KokkosMC ------------------------------
(***************************************************************************)
(* The connector's design: contexts of several problems, nested in any     *)
(* way across problems, against the properties C16 and C17. The policy of  *)
(* an untrained problem is explored in turn; a trained one answers a best  *)
(* policy. hist is printed for replay on the real connector.               *)
(***************************************************************************)
EXTENDS Kokkos, Json

CONSTANTS Probs,      \* sequence of [name, vars (tuning variables)]
          Vals,       \* context values
          Flush, MaxReq, MaxIdle, Gen

VARIABLES S, K, req, idle, stack, offered, rec, hist

vars == <<S, K, req, idle, stack, offered, rec, hist>>

N(i) == Product(Probs[i].vars)
NmOf(i) == Probs[i].name
Regions == {NmOf(i) : i \in DOMAIN Probs}

(* the combination a policy stands for, some bijection                      *)
RECURSIVE Decode(_, _)
Nth(v, i) == IF v.q = "set" THEN v.vals[i + 1] ELSE First(v) + i * v.st
Decode(vs, p) == IF vs = <<>> THEN <<>>
                 ELSE <<Nth(Head(vs), p % NumCand(Head(vs)))>> \o Decode(Tail(vs), p \div NumCand(Head(vs)))

Init == /\ S = LET Op(T, d) == AddRegion(T, d.name, [i \in DOMAIN Probs |-> NmOf(i)],
                        NewRegion(1, Product(d.vars), 0, "RandomForest", 0, "RoundRobin", TRUE))
               IN FoldSeq2(Op, InitS([persist |-> FALSE, gper |-> 0, rper |-> 0, store |-> TRUE, single |-> FALSE]), Probs)
        /\ K = [InitK EXCEPT !.flush = Flush]
        /\ req = 0 /\ idle = 0 /\ stack = <<>> /\ hist = <<>>
        /\ offered = [r \in Regions |-> <<>>]
        /\ rec = [x \in {} |-> 0]

(* contexts of one problem do not overlap: the runtime has one synchronous  *)
(* execution per region                                                     *)
Busy(r) == \E x \in DOMAIN K.ctx : Open(K, x) /\ K.ctx[x].r = r
Request(i, a) ==
  LET r == NmOf(i) x == req + 1 c == "c" \o ToString(x)
      T == ClearLog(S)
  IN /\ req < MaxReq /\ ~Busy(r)
     /\ \E p \in Choices(S.reg[r], <<a>>) :
          LET w == Decode(Probs[i].vars, p) IN
          /\ S' = KRequestS(T, r, c, <<a>>, p)
          /\ K' = KRequestK(K, x, i, r, c, p, w)
          /\ offered' = IF S.reg[r].tr THEN [offered EXCEPT ![r] = Append(@, w)] ELSE offered
     /\ req' = req + 1 /\ stack' = Append(stack, x)
     /\ rec' = (x :> 0) @@ rec
     /\ hist' = Append(hist, [o |-> "req", x |-> x, i |-> i, a |-> a])
     /\ UNCHANGED idle
(* contexts end in any order                                                *)
End1(x) ==
  /\ Open(K, x)
  /\ LET T == KEndS(Tick(ClearLog(S), 64), K, x) IN
     /\ S' = T
     /\ rec' = [y \in DOMAIN rec |-> rec[y] + Cardinality({i \in DOMAIN T.log.col : T.log.col[i].c = "c" \o ToString(y)})]
  /\ K' = KEndK(K, x)
  /\ stack' = SelectSeq(stack, LAMBDA y : y # x)
  /\ hist' = Append(hist, [o |-> "end", x |-> x])
  /\ UNCHANGED <<req, idle, offered>>
(* the end of a context that requested nothing, or is over                  *)
EndIdle(x) ==
  /\ idle < MaxIdle /\ ~Open(K, x)
  /\ S' = KEndS(ClearLog(S), K, x) /\ K' = KEndK(K, x)
  /\ idle' = idle + 1
  /\ hist' = Append(hist, [o |-> "end", x |-> x])
  /\ UNCHANGED <<req, stack, offered, rec>>

Finished == req = MaxReq /\ stack = <<>> /\ idle = MaxIdle
Next == \/ \E i \in DOMAIN Probs, a \in Vals : Request(i, a)
        \/ \E x \in 1..MaxReq : End1(x)
        \/ \E x \in {0} \cup 1..MaxReq : EndIdle(x)

PrintHist == (Gen /\ Finished) => PrintT("HIST " \o ToJson(hist))

-----------------------------------------------------------------------------
(* C16 *)
Offered == \A i \in DOMAIN Probs : LET o == offered[NmOf(i)] IN
  /\ \A j \in DOMAIN o : \A v \in DOMAIN o[j] : IsCand(Probs[i].vars[v], o[j][v])
  /\ Len(o) >= N(i) => Cardinality({o[j] : j \in DOMAIN o}) = N(i)
  /\ \A j, k \in DOMAIN o : (j < k /\ k < j + N(i)) => o[j] # o[k]
OneToOne == \A r \in DOMAIN K.comb : \A p, q \in DOMAIN K.comb[r] : K.comb[r][p] = K.comb[r][q] => p = q
(* C17 *)
OncePerContext == \A x \in DOMAIN rec : rec[x] = (IF Open(K, x) THEN 0 ELSE 1)
Counted == K.n = Cardinality({x \in DOMAIN rec : rec[x] = 1})
TrainedAtFlush == \A r \in Regions : S.reg[r].gen > 0 => K.n >= K.flush
(* nothing that finished before a flush is left out of the training         *)
NoneLeft == K.n >= K.flush => \A r \in Regions :
               (\E x \in DOMAIN rec : x <= K.flush /\ rec[x] = 1 /\ K.ctx[x].r = r /\ stack = <<>> /\ K.n = K.flush) => S.reg[r].gen > 0
View == <<S, K, req, idle, offered, rec>>
=============================================================================
