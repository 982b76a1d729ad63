---------------------------- MODULE ApolloTrace -----------------------------
(***************************************************************************)
(* Trace validation. trace.ndjson holds recorded executions of the real    *)
(* library, one line per call: the call, its arguments and results, and    *)
(* the observed change of every region's dataset (ds, rm), trainability    *)
(* and execution count (st) and of the model files (fl). Each line is      *)
(* replayed with the operators of ApolloCore. Every way the observation    *)
(* can differ from the specification has a label; a label is owned by the  *)
(* properties it breaks and is reported when Focus is one of them. After   *)
(* each line the state is synchronised with the observation, so that one   *)
(* property is judged on its own fields only.                              *)
(***************************************************************************)
EXTENDS ApolloCore, CART, Stored, FileNames, Config, Kokkos, PolicyNet, Json

CONSTANT Focus

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES l,      \* next line
          S,      \* specification state, synchronised with the observations
          H,      \* observed exact values: region -> <<features, policy>> -> hex
          Rows,   \* trace rows expected so far: g global, r per region, p policy
                  \* decisions (p0: number of those of earlier runs), b best policy files
          Disk,   \* datasets left by earlier runs: region -> [d, h]
          M,      \* model identities: id (region -> model), files (path -> model),
                  \* dec (<<model, features>> -> decision seen), next (unused identity)
          run,    \* current run
          bad     \* current run already had a mismatch of Focus

vars == <<l, S, H, Rows, Disk, M, run, bad>>

Owner(label) ==
  CASE label = "range"        -> {"C01", "C02"}
    [] label = "choice"       -> {"C12", "C02", "C20"}
    [] label = "choice-map"   -> {"C05", "C10", "C11"}
    [] label = "choice-learned" -> {"C02", "C05", "C06", "C07", "C08", "C14", "C17"}
    [] label = "decision"     -> {"C06", "C07", "C12", "C08", "C09", "C11", "C14", "C19", "C20", "C17"}
    [] label = "reach"        -> {"C12", "C02"}
    [] label = "probs"        -> {"C18"}
    [] label = "probs-same"   -> {"C12", "C09", "C11", "C18"}
    [] label = "probs-cached" -> {"C18"}
    [] label = "probs-draw"   -> {"C18"}
    [] label = "threshold"    -> {"C18", "C09", "C12"}
    [] label = "learns"       -> {"C18"}
    [] label = "tree"         -> {"C05", "C10", "C06", "C19", "C14", "C13", "C12"}
    [] label = "perfect"      -> {"C05", "C06", "C19"}
    [] label = "forest"       -> {"C07", "C19", "C12"}
    [] label = "lost"         -> {"C03", "C04", "C20", "C21", "C10", "C15", "C08", "C14", "C17"}
    [] label = "extra"        -> {"C03", "C04", "C20", "C10", "C08", "C14", "C17"}
    [] label = "removed"      -> {"C03", "C04", "C20", "C10", "C14", "C17"}
    [] label = "first-value"  -> {"C03", "C04", "C21", "C20", "C17"}
    [] label = "first-exact"  -> {"C03", "C04", "C20", "C21"}
    [] label = "avg-range"    -> {"C03"}
    [] label = "avg-value"    -> {"C04", "C20", "C10", "C14", "C17"}
    [] label = "other-region" -> {"C03", "C04", "C20", "C14", "C17"}
    [] label = "trainable"    -> {"C12", "C08", "C09", "C20", "C14", "C17"}
    [] label = "untrained"    -> {"C08", "C10", "C11", "C12"}
    [] label = "files-final"  -> {"C08"}
    [] label = "idx"          -> {"C20", "C08", "C15", "C17"}
    [] label = "files"        -> {"C08", "C12", "C17"}
    [] label = "loaded"       -> {"C12", "C10", "C11", "C25"}
    [] label = "final"        -> {"C12", "C10", "C03"}
    [] label = "final-exact"  -> {"C10"}
    [] label = "best"         -> {"C05", "C11"}
    [] label = "ptrace"       -> {"C22"}
    [] label = "bestfiles"    -> {"C22"}
    [] label \in {"stored", "stored-rows", "picture", "stored-data"} -> {"C25"}
    [] label = "leak"         -> {"C23"}
    [] label = "events"       -> {"C23"}
    [] label = "exec-info"    -> {"C12", "C15"}
    [] label = "total"        -> {"C15"}
    [] label = "csv"          -> {"C12", "C15"}
    [] label = "csv-global"   -> {"C12", "C15"}
    [] label = "param"        -> {"C12", "C18"}
    [] label = "dirs"         -> {"C12"}
    [] label = "kvalue"       -> {"C16"}
    [] label = "kcombo"       -> {"C16"}
    [] label = "kpolicy"      -> {"C17"}
    [] label = "kregion"      -> {"C17"}
    [] label = "kfence"       -> {"C17"}
    [] label = "status"       -> {Focus}
    [] OTHER -> {}

(* C24: whatever a rank does among others has to be what it does alone      *)
Mine(label) == Focus \in {"ALL", "C24"} \/ Focus \in Owner(label)

-----------------------------------------------------------------------------
(* The observation of one line                                              *)

Ev == Trace[l]

Entry(e) == <<e.k, e.p>>

(* dataset of region r after applying the observed changes to d             *)
ObsData(d, r, val(_)) ==
  LET up == {i \in DOMAIN Ev.ds : Ev.ds[i].r = r}
      dn == {Entry(Ev.rm[i]) : i \in {j \in DOMAIN Ev.rm : Ev.rm[j].r = r}}
      ks == {Entry(Ev.ds[i]) : i \in up}
      at(x) == CHOOSE i \in up : Entry(Ev.ds[i]) = x
  IN IF up = {} /\ dn = {} THEN d
     ELSE [x \in (DOMAIN d \ dn) \cup ks |-> IF x \in ks THEN val(Ev.ds[at(x)]) ELSE d[x]]

UnitOf(e) == e.u
HexOf(e) == e.x

ObsSt(r) == {i \in DOMAIN Ev.st : Ev.st[i].r = r}

(* synchronise the specification state T with the observation               *)
Sync(T, old) ==
  [T EXCEPT !.reg = [r \in DOMAIN T.reg |->
     LET R == T.reg[r]
         o == IF r \in DOMAIN old.reg THEN old.reg[r] ELSE [R EXCEPT !.data = EmptyFn]
         i == ObsSt(r)
         st == IF i = {} THEN [t |-> o.tr, i |-> o.idx]
               ELSE LET e == Ev.st[CHOOSE x \in i : TRUE] IN [t |-> e.t, i |-> e.i]
     IN [R EXCEPT !.data = ObsData(o.data, r, UnitOf), !.tr = st.t, !.idx = st.i]]]

SyncH(T) == [r \in DOMAIN T.reg |-> ObsData(IF r \in DOMAIN H THEN H[r] ELSE EmptyFn, r, HexOf)]

Near(a, b) == Abs(a - b) <= 2

-----------------------------------------------------------------------------
(* Differences between specification T (after the call), the state before   *)
(* (S) and the observation O (both synchronised), as a set of labels        *)

DataDiff(T, O) ==
  UNION { LET d == T.reg[r].data                  \* specified
              o == O.reg[r].data                  \* observed
              b == IF r \in DOMAIN S.reg THEN S.reg[r].data ELSE EmptyFn
              touched == {T.log.col[i].r : i \in DOMAIN T.log.col}
              cols(x) == {i \in DOMAIN T.log.col :
                            /\ T.log.col[i].r = r /\ T.log.col[i].rec
                            /\ LET c == T.ctx[T.log.col[i].c] IN <<c.feats, c.pol>> = x}
              ms(x) == {T.log.col[i].m : i \in cols(x)}
          IN  (IF DOMAIN d \ DOMAIN o # {} THEN {"lost"} ELSE {})
         \cup (IF DOMAIN o \ DOMAIN d # {} THEN {"extra"} ELSE {})
         \cup (IF (DOMAIN b \ DOMAIN o) \cap DOMAIN d # {} THEN {"removed"} ELSE {})
         \cup (IF r \notin touched /\ o # b /\ d = b THEN {"other-region"} ELSE {})
         \cup UNION { IF x \notin DOMAIN b /\ Cardinality(cols(x)) = 1
                      THEN IF ~Near(d[x], o[x]) THEN {"first-value"} ELSE {}
                      ELSE IF d[x] = o[x] THEN {}
                      ELSE LET all == ms(x) \cup (IF x \in DOMAIN b THEN {b[x]} ELSE {})
                           IN (IF cols(x) = {} \/ ~(\E v \in all : v <= o[x] + 1)
                                              \/ ~(\E v \in all : o[x] - 1 <= v)
                               THEN {"avg-range", "avg-value"} ELSE {})
                              \cup (IF ~Near(d[x], o[x]) THEN {"avg-value"} ELSE {})
                      : x \in DOMAIN d \cap DOMAIN o }
        : r \in {q \in DOMAIN T.reg : T.reg[q].data # O.reg[q].data} }

StDiff(T, O) ==
  UNION { (IF T.reg[r].tr # O.reg[r].tr THEN {"trainable"} ELSE {})
     \cup (IF T.reg[r].idx # O.reg[r].idx THEN {"idx"} ELSE {}) : r \in DOMAIN T.reg }

Rank(T) == RankPart(T.cfg.rank) \o "-"
HasFile(R) == R.mdl \in {"DecisionTree", "RandomForest", "PolicyNet"}
ExpFiles(T) ==
  UNION { LET e == T.log.trn[i]
          IN (IF T.cfg.store /\ HasFile(T.reg[e.r]) /\ ~T.cfg.single
              THEN {StepFileOf(T.cfg.mdir, T.reg[e.r].mdl, e.step, T.cfg.rank, e.r),
                    LatestFileOf(T.cfg.mdir, T.reg[e.r].mdl, T.cfg.rank, e.r)} ELSE {})
             \cup (IF T.cfg.bestp /\ ~T.cfg.single
                   THEN {BestFileOf(e.step, T.cfg.rank, e.r)} ELSE {})
        : i \in DOMAIN T.log.trn }
FileDiff(T) == IF T.cfg.track /\ Range(Ev.fl) # ExpFiles(T) THEN {"files"} ELSE {}

AllDiff(T, O) == DataDiff(T, O) \cup StDiff(T, O) \cup FileDiff(T)

Report(labels, exp, obs) ==
  LET mine == {x \in labels : Mine(x)} IN
  IF mine = {} \/ bad THEN bad' = bad
  ELSE /\ PrintT(<<"MISMATCH", run, l, mine>>)
       /\ bad' = TRUE

(* a feature vector as the traces print it                                   *)
CutOf(k) == [i \in DOMAIN k |-> IF k[i] \in DOMAIN S.cfg.cut THEN S.cfg.cut[k[i]] ELSE k[i]]
BestName(T, r, step) == BestFileOf(step, T.cfg.rank, r)
NewBest(T) == IF ~T.cfg.bestp \/ T.cfg.single THEN Rows.b
              ELSE FoldSeq2(LAMBDA b, e : (BestName(T, e.r, e.step) :> [r |-> e.r, d |-> e.d]) @@ b, Rows.b, T.log.trn)

CsvRows(T) == [g |-> Rows.g \o [i \in DOMAIN T.log.col |-> T.log.col[i].c],
               r |-> [q \in DOMAIN T.reg |->
                  (IF q \in DOMAIN Rows.r THEN Rows.r[q] ELSE <<>>)
                  \o [i \in DOMAIN SelectSeq(T.log.col, LAMBDA e : e.r = q) |->
                        LET e == SelectSeq(T.log.col, LAMBDA f : f.r = q)[i]
                        IN [c |-> e.c, m |-> e.m]]]]
(* rows after a call with outcome T that took the decisions ps               *)
NewRows(T, ps) ==
  LET c == IF T.cfg.csv THEN CsvRows(T) ELSE [g |-> Rows.g, r |-> Rows.r]
  IN [g |-> c.g, r |-> c.r, b |-> NewBest(T), p0 |-> Rows.p0,
      p |-> IF T.cfg.ptrace THEN Rows.p \o ps ELSE Rows.p]
NoRows == [g |-> <<>>, r |-> [x \in {} |-> <<>>], b |-> [x \in {} |-> 0], p |-> <<>>, p0 |-> 0]

-----------------------------------------------------------------------------
(* Model identities (C09, C11, C14, C19). Training gives a region's model a *)
(* new identity, storing binds a file to it, loading takes the file's, in   *)
(* this or a later run. A model decides by its identity: the same features  *)
(* always get the decision seen first.                                      *)


HasModel(mdl) == mdl \in Learning \cup {"PolicyNet"}

StepFile(T, r, step) == StepFileOf(T.cfg.mdir, T.reg[r].mdl, step, T.cfg.rank, r)
LatestFile(T, r) == LatestFileOf(T.cfg.mdir, T.reg[r].mdl, T.cfg.rank, r)

(* with a single model, decision trees trained together are the same model  *)
Trained(m, T) ==
  LET same == T.cfg.single
      Op(a, e) ==
        IF ~HasModel(T.reg[e.r].mdl) \/ (e.r \in DOMAIN a.pn /\ a.pn[e.r]) THEN a
        ELSE LET i == a.next + 1
                 a1 == [a EXCEPT !.id = (e.r :> (IF same /\ T.reg[e.r].mdl = "DecisionTree" THEN m.next ELSE i)) @@ a.id, !.next = i]
             IN IF T.cfg.store /\ ~T.cfg.single
                THEN [a1 EXCEPT !.files = (StepFile(T, e.r, e.step) :> a1.id[e.r]) @@ (LatestFile(T, e.r) :> a1.id[e.r]) @@ a1.files]
                ELSE a1
  IN IF T.log.trn = <<>> THEN m ELSE FoldSeq2(Op, [m EXCEPT !.next = @ + 1], T.log.trn)

MTrained(T) == Trained(M, T)

Loaded(m, r, f) == IF f \in DOMAIN m.files THEN [m EXCEPT !.id = (r :> m.files[f]) @@ m.id]
                   ELSE [m EXCEPT !.id = (r :> (m.next + 1)) @@ m.id, !.next = @ + 1]
Stored(m, r, f) == IF r \in DOMAIN m.id THEN [m EXCEPT !.files = (f :> m.id[r]) @@ m.files] ELSE m

(* decision p of owner r for features k: consistent with its identity?      *)
DecOk(m, r, k, p) == r \notin DOMAIN m.id \/ <<m.id[r], k>> \notin DOMAIN m.dec \/ m.dec[<<m.id[r], k>>] = p
Dec(m, r, k, p) == IF r \notin DOMAIN m.id \/ <<m.id[r], k>> \in DOMAIN m.dec THEN m
                   ELSE [m EXCEPT !.dec = (<<m.id[r], k>> :> p) @@ m.dec]

-----------------------------------------------------------------------------
(* replay one call: T is the specified state after it, m the identities     *)
ApplyP(T, m, more, ps) ==
  LET O == Sync(T, S) IN
  /\ Report(AllDiff(T, O) \cup more, T, O)
  /\ S' = O
  /\ H' = SyncH(T)
  /\ Rows' = NewRows(T, ps)
  /\ M' = m
  /\ UNCHANGED <<Disk, run>>
ApplyM(T, m, more) == ApplyP(T, m, more, <<>>)
Apply(T, more) == ApplyM(T, MTrained(T), more)
-----------------------------------------------------------------------------
C0 == ClearLog(S)

Step_run ==
  /\ Ev.e = "run"
  /\ S' = InitS(Ev.cfg)
  /\ H' = [x \in {} |-> 0]
  /\ Rows' = IF Ev.fresh THEN NoRows ELSE [NoRows EXCEPT !.p = Rows.p, !.p0 = Len(Rows.p), !.b = Rows.b]
  /\ Disk' = IF Ev.fresh THEN [x \in {} |-> 0] ELSE Disk
  /\ M' = [id |-> [x \in {} |-> 0], next |-> M.next, mem |-> <<>>, pn |-> [x \in {} |-> FALSE],
           k |-> [InitK EXCEPT !.comb = IF Ev.fresh THEN @ ELSE M.k.comb, !.flush = Ev.cfg.kflush],
           files |-> IF Ev.fresh THEN [x \in {} |-> 0] ELSE M.files,
           dec |-> IF Ev.fresh THEN [x \in {} |-> 0] ELSE M.dec]
  /\ run' = Ev.run
  /\ bad' = FALSE

(* Creation. With persistent datasets the region starts from what the       *)
(* previous run left, and automatic training may apply at once; with a      *)
(* training period the first training may happen at creation or not. Where   *)
(* the global period falls on the creation of a region that can be trained,  *)
(* the regions there are already get trained.                                *)
Step_create ==
  /\ Ev.e = "create"
  /\ LET R0 == NewRegion(Ev.nf, Ev.np, Ev.min, Ev.mdl, Ev.par, Ev.exp, Ev.tr)
         fromDisk == (S.cfg.persist \/ Ev.ldds) /\ Ev.r \in DOMAIN Disk
         R1 == IF fromDisk THEN [R0 EXCEPT !.data = Disk[Ev.r].d] ELSE R0
         C1 == IF S.cfg.persist /\ Ev.tr /\ S.cfg.gper > 0 /\ S.tot % S.cfg.gper = 0 THEN TrainAll(C0, S.tot, FALSE) ELSE C0
         T1 == ClearLog(AddRegion(C1, Ev.r, Ev.ord, R1))
         n  == Cardinality(DOMAIN R1.data)
         must == /\ fromDisk /\ R1.tr /\ n > 0 /\ T1.cfg.gper = 0
                 /\ (Ev.ldtr \/ (R1.min > 0 /\ R1.min <= n))
         may  == fromDisk /\ R1.tr /\ n > 0 /\ (T1.cfg.gper > 0 \/ T1.cfg.rper > 0)
         seen == \E i \in ObsSt(Ev.r) : ~Ev.st[i].t
         T2 == IF must \/ (may /\ seen)
               THEN [TrainModel(T1, Ev.r, R1.data, 0) EXCEPT !.log.trn = <<>>] ELSE T1
         T3 == IF Ev.mdl = "DatasetMap" THEN [T2 EXCEPT !.reg[Ev.r].trn = R1.data] ELSE T2
         O  == Sync(T3, S)
         h  == ObsData(EmptyFn, Ev.r, HexOf)
         lbl == (IF T3.reg[Ev.r].data # O.reg[Ev.r].data
                    \/ (fromDisk /\ h # Disk[Ev.r].h) THEN {"loaded"} ELSE {})
                \cup (StDiff(T3, O) \ (IF may THEN {"trainable"} ELSE {}))
                \cup (IF must /\ T3.reg[Ev.r].tr # O.reg[Ev.r].tr THEN {"untrained"} ELSE {})
                \cup (IF \E r \in DOMAIN S.reg : S.reg[r].data # O.reg[r].data THEN {"other-region"} ELSE {})
     IN /\ Report(lbl, T3, O)
        /\ S' = O
        /\ H' = SyncH(T3)
        /\ Rows' = [Rows EXCEPT !.r = (Ev.r :> <<>>) @@ Rows.r,
                                !.b = IF T2.reg[Ev.r].gen > 0 /\ T2.cfg.bestp THEN (BestName(T2, Ev.r, 0) :> [r |-> Ev.r, d |-> R1.data]) @@ NewBest(C1) ELSE NewBest(C1)]
        /\ LET mt == MTrained(C1)
               m0 == [mt EXCEPT !.id = (Ev.r :> (mt.next + 1)) @@ mt.id, !.next = @ + 1]
               m1 == IF ~HasModel(Ev.mdl) THEN mt
                     ELSE FoldSeq2(LAMBDA a, f : Loaded(a, Ev.r, f), m0, Ev.lf)
               trained == T2.reg[Ev.r].gen > 0 /\ HasModel(Ev.mdl)
               m2 == IF trained THEN [m1 EXCEPT !.id = (Ev.r :> (m1.next + 1)) @@ m1.id, !.next = @ + 1] ELSE m1
           IN M' = IF trained /\ T2.cfg.store /\ ~T2.cfg.single
                   THEN [m2 EXCEPT !.files = (LatestFile(T2, Ev.r) :> m2.id[Ev.r]) @@ (StepFile(T2, Ev.r, 0) :> m2.id[Ev.r]) @@ m2.files]
                   ELSE m2
        /\ UNCHANGED <<Disk, run>>

Step_begin == Ev.e = "begin" /\ Apply(Begin(C0, Ev.r, Ev.c, Ev.kind, Ev.feats, Ev.dur), {})
Step_feat  == Ev.e = "feat"  /\ Apply(SetFeature(C0, Ev.c, Ev.v), {})

ChoiceLabels(R, k, p) ==
  (IF p \notin 0..(R.np - 1) /\ R.mdl # "Optimal" THEN {"range"} ELSE {})
  \cup (IF p \in Choices(R, k) THEN {}
        ELSE IF ExplorerKind(R) = "DatasetMap" THEN {"choice-map"}
        ELSE IF ExplorerKind(R) = "learned" THEN {"choice-learned"}
        ELSE {"choice"})

Step_pol ==
  /\ Ev.e = "pol"
  /\ LET x == S.ctx[Ev.c]
         R == S.reg[x.r]
         fx == ExplorerKind(R) = "learned"
     IN
     ApplyP(GetPolicy(C0, Ev.c, Ev.p),
           IF fx THEN Dec(M, x.r, x.feats, Ev.p) ELSE M,
           (IF Ev.opt # -1 THEN (IF Ev.p # Ev.opt THEN {"choice"} ELSE {})
            ELSE ChoiceLabels(R, x.feats, Ev.p))
           \cup (IF fx /\ ~DecOk(M, x.r, x.feats, Ev.p) THEN {"decision"} ELSE {}),
           <<[r |-> x.r, m |-> R.mdl, f |-> CutOf(x.feats), p |-> ToString(Ev.p)]>>)

Step_q ==
  /\ Ev.e = "q"
  /\ LET R == S.reg[Ev.r]
         fx == ExplorerKind(R) = "learned"
     IN
     ApplyM([C0 EXCEPT !.reg[Ev.r] = Advance(@, Ev.p)],
            IF fx THEN Dec(M, Ev.r, Ev.k, Ev.p) ELSE M,
            ChoiceLabels(R, Ev.k, Ev.p)
            \cup (IF fx /\ ~DecOk(M, Ev.r, Ev.k, Ev.p) THEN {"decision"} ELSE {}))

(* models made by the model factory from a file: owner "m:" name            *)
Quiet == UNCHANGED <<S, H, Rows, Disk, run>>
Step_mload == /\ Ev.e = "mload"
              /\ M' = Loaded(M, Ev.m, Ev.f)
              /\ Report({}, 0, 0) /\ Quiet
Step_mq == /\ Ev.e = "mq"
           /\ Report((IF DecOk(M, Ev.m, Ev.k, Ev.p) THEN {} ELSE {"decision"})
                     \cup (IF Ev.p \in 0..(Ev.np - 1) THEN {} ELSE {"range"}), 0, 0)
           /\ M' = Dec(M, Ev.m, Ev.k, Ev.p) /\ Quiet
Step_mstore == /\ Ev.e = "mstore"
               /\ M' = Stored(M, Ev.m, Ev.f)
               /\ Report({}, 0, 0) /\ Quiet
Step_mtr == /\ Ev.e = "mtrainable"
            /\ Report(IF Ev.t THEN {"decision"} ELSE {}, 0, 0)
            /\ M' = M /\ Quiet

(* explicit store and load of a region's model, copies of files             *)
Step_store == Ev.e = "store" /\ ApplyM(C0, Stored(M, Ev.r, Ev.f), {})
Step_load  == Ev.e = "load" /\ ApplyM(LoadModel(C0, Ev.r), Loaded(M, Ev.r, Ev.f), {})
Step_copy  == /\ Ev.e = "copy"
              /\ M' = IF Ev.f \in DOMAIN M.files THEN [M EXCEPT !.files = (Ev.g :> M.files[Ev.f]) @@ M.files] ELSE M
              /\ Disk' = IF Ev.dr # "" /\ Ev.dr \in DOMAIN Disk THEN (Ev.dq :> Disk[Ev.dr]) @@ Disk ELSE Disk
              /\ Report({}, 0, 0)
              /\ UNCHANGED <<S, H, Rows, run>>

(* many requests of the same features: which policies came, how often       *)
DrawN(h) == LET Op(a, x) == a + x[2] IN FoldSeq2(Op, 0, h)
Step_draw ==
  /\ Ev.e = "draw"
  /\ LET R == S.reg[Ev.r]
         ps == {Ev.h[i][1] : i \in DOMAIN Ev.h}
         cnt(p) == LET is == {i \in DOMAIN Ev.h : Ev.h[i][1] = p}
                   IN IF is = {} THEN 0 ELSE Ev.h[CHOOSE i \in is : TRUE][2]
         pr == Ev.pr
     IN /\ Report((IF ps \subseteq 0..(R.np - 1) /\ DrawN(Ev.h) = Ev.n THEN {} ELSE {"range"})
                  \cup (IF ExplorerKind(R) = "Random" /\ ps # 0..(R.np - 1) THEN {"reach"} ELSE {})
                  \cup (IF ExplorerKind(R) = "PolicyNet" /\ pr # <<>> /\
                           (\E i \in DOMAIN pr : Abs(cnt(i - 1) - (((pr[i] \div 10000) * Ev.n) \div 10000)) > Ev.tol)
                        THEN {"probs-draw"} ELSE {})
                  \cup (IF Ev.r \in DOMAIN M.pn /\ Ev.n > 100 /\ M.pn[Ev.r] # (ps = {0}) THEN {"threshold"} ELSE {})
                  \cup (IF Ev.zero /\ ps # {0} THEN {"threshold"} ELSE {})
                  \cup (IF Ev.some /\ Cardinality(ps) < 2 THEN {"threshold"} ELSE {}), 0, 0)
        /\ M' = M /\ Quiet

(* PolicyNet's average reward against the threshold (see PolicyNet). The     *)
(* event precedes a training and gives the batches trained on up to and     *)
(* including it; M.pn remembers whether the average is then below.          *)
Step_pnet ==
  /\ Ev.e = "pnet"
  /\ Assert(Abs(AvgReward(Ev.beta, Ev.b) - Ev.thr) > 20, <<"too close to the threshold", run, AvgReward(Ev.beta, Ev.b), Ev.thr>>)
  /\ M' = [M EXCEPT !.pn = (Ev.r :> Below(Ev.beta, Ev.thr, Ev.b)) @@ @]
  /\ Report({}, 0, 0) /\ Quiet

(* action probabilities, in units of 1e-8 (C18)                             *)
Sum(s) == FoldSeq2(LAMBDA a, b : a + b, 0, s)
Step_probs ==
  /\ Ev.e = "probs"
  /\ LET R == S.reg[Ev.r]
         known == Ev.r \in DOMAIN M.id
     IN /\ Report(IF Ev.via # "cache" THEN {}
                  ELSE (IF /\ Len(Ev.pr) = R.np
                           /\ \A i \in DOMAIN Ev.pr : Ev.pr[i] \in 0..100000000
                           /\ Abs(Sum(Ev.pr) - 100000000) <= R.np THEN {} ELSE {"probs"})
                       \cup (IF known /\ ~DecOk(M, Ev.r, <<"probs", Ev.k>>, Ev.hx) THEN {"probs-same"} ELSE {})
                       \cup (IF Ev.cached # <<>> /\ Ev.cached # Ev.pr THEN {"probs-cached"} ELSE {}), 0, 0)
        /\ M' = IF Ev.via = "cache" THEN Dec(M, Ev.r, <<"probs", Ev.k>>, Ev.hx) ELSE M
        /\ Quiet

(* after repeated training on the region's data the probabilities for       *)
(* the feature vectors Ev.v moved towards the rewards                       *)
Step_learns ==
  /\ Ev.e = "learns"
  /\ Report(IF Follows(S.reg[Ev.r].data, Ev.v) THEN {} ELSE {"learns"}, 0, 0)
  /\ M' = M /\ Quiet

(* the probabilities a moved at least ten times as far as the probabilities b *)
Far(x) == LET d == {Abs(x[1][i] - x[2][i]) : i \in DOMAIN x[1]} IN CHOOSE y \in d : \A z \in d : z <= y
Step_moved ==
  /\ Ev.e = "moved"
  /\ Report(IF Far(Ev.a) > 10 * Far(Ev.b) THEN {} ELSE {Ev.label}, 0, 0)
  /\ M' = M /\ Quiet

Step_end  == Ev.e = "end" /\ Apply(End(C0, Ev.c), {})

(* the given metric is stored bit for bit when it is the first of its entry *)
Step_endm ==
  /\ Ev.e = "endm"
  /\ LET x == S.ctx[Ev.c]
         key == <<x.feats, x.pol>>
         h == SyncH(C0)
     IN Apply(EndMetric(C0, Ev.c, Ev.m),
              IF Records(S, x.r) /\ key \notin DOMAIN S.reg[x.r].data /\ S.reg[x.r].pend = <<>>
                 /\ key \in DOMAIN h[x.r] /\ h[x.r][key] # Ev.x
              THEN {"first-exact"} ELSE {})

Step_done  == Ev.e = "done" /\ Apply(Done(C0, Ev.c), {})
Step_adv   == Ev.e = "adv" /\ S' = Tick(S, Ev.d) /\ UNCHANGED <<H, Rows, Disk, M, run, bad>>
Step_train == Ev.e = "train" /\ Apply(TrainRegion(C0, Ev.r, Ev.step, Ev.collect, Ev.force), {})
Step_traina == Ev.e = "traina" /\ Apply(TrainAll(C0, Ev.step, Ev.collect), {})
Step_collect == Ev.e = "collect" /\ Apply(CollectPending(C0, Ev.r), {})
Step_nop   == Ev.e = "nop" /\ Apply(C0, {})
Step_insert == /\ Ev.e = "insert"
               /\ Apply([C0 EXCEPT !.reg[Ev.r].data = Insert(@, Ev.k, Ev.p, Ev.m)], {})

(* many measurements of different new entries at once                       *)
Step_bulk ==
  /\ Ev.e = "bulk"
  /\ LET d == S.reg[Ev.r].data
         ks == {<<Ev.ins[i].k, Ev.ins[i].p>> : i \in DOMAIN Ev.ins}
         v == [i \in DOMAIN Ev.ins |-> <<<<Ev.ins[i].k, Ev.ins[i].p>>, Ev.ins[i].m>>]
         \* one function for all of them (entries are different: asserted)
         f == [x \in ks |-> v[CHOOSE i \in DOMAIN v : v[i][1] = x][2]]
     IN /\ Assert(Cardinality(ks) = Len(Ev.ins) /\ ks \cap DOMAIN d = {}, <<"bulk entries", run>>)
        /\ Apply([C0 EXCEPT !.reg[Ev.r].data = [x \in DOMAIN d \cup ks |-> IF x \in ks THEN f[x] ELSE d[x]]], {})

(* n requests in a row; Ev.h lists the places (from 0) that do not hold the *)
(* cyclic successor of the policy before                                    *)
Step_seq ==
  /\ Ev.e = "seq"
  /\ LET R == S.reg[Ev.r]
         cyc == ExplorerKind(R) = "RoundRobin"
         ok == Ev.h = <<<<0, (R.rr + 1) % R.np>>>>
     IN ApplyM([C0 EXCEPT !.reg[Ev.r].rr = IF cyc THEN (@ + Ev.n) % R.np ELSE @], M,
               (IF \A i \in DOMAIN Ev.h : Ev.h[i][2] \in 0..(R.np - 1) THEN {} ELSE {"range"})
               \cup (IF cyc /\ ~ok THEN {"choice"} ELSE {}))

(* Decisions of a learned model on sample points (C06, C07): see CART. The  *)
(* event maps every feature vector of the data trained on to integers; the  *)
(* classes are the best policies of that data.                              *)
TrainSet(r, pts) == [i \in DOMAIN pts |-> [x |-> pts[i].x, y |-> CHOOSE p \in BestOf(S.reg[r].trn, pts[i].k) : TRUE]]
IsTrainSet(r, pts) == /\ {pts[i].k : i \in DOMAIN pts} = Keys(S.reg[r].trn)
                      /\ Len(pts) = Cardinality(Keys(S.reg[r].trn))
                      /\ \A i \in DOMAIN pts : Cardinality(BestOf(S.reg[r].trn, pts[i].k)) = 1
Step_tree ==
  /\ Ev.e = "tree"
  /\ Assert(Ev.r \notin DOMAIN S.reg \/ IsTrainSet(Ev.r, Ev.pts) \/ bad \/ S.reg[Ev.r].tr, <<"training set of the scenario", run>>)
  /\ Report(IF IsTrainSet(Ev.r, Ev.pts) /\ ~TreeExplains(TrainSet(Ev.r, Ev.pts), Ev.q, Ev.depth) THEN {"tree"} ELSE {}, 0, 0)
  /\ M' = M /\ Quiet
(* an unrestricted tree returns the best policy of every training point     *)
Step_perfect ==
  /\ Ev.e = "perfect"
  /\ Report(IF \A i \in DOMAIN Ev.q : Ev.q[i].p \in BestOf(S.reg[Ev.r].trn, Ev.q[i].k) THEN {} ELSE {"perfect"}, 0, 0)
  /\ M' = M /\ Quiet
(* a forest, its trees read from its stored file (e.trees), or only its     *)
(* answers                                                                  *)
Step_forest ==
  /\ Ev.e = "forest"
  /\ LET d == TrainSet(Ev.r, Ev.pts) IN
     Report(IF IsTrainSet(Ev.r, Ev.pts)
               /\ ~(/\ Ev.trees # <<>> => ForestExplains(Ev, d)
                    /\ Ev.small => SmallForest(d, Ev.x, Ev.p, Ev.n, Ev.depth))
            THEN {"forest"} ELSE {}, 0, 0)
  /\ M' = M /\ Quiet

(* two lists of observed answers that have to agree                         *)
Step_same ==
  /\ Ev.e = "same"
  /\ Report(IF Ev.a = Ev.b THEN {} ELSE {Ev.label}, 0, 0)
  /\ M' = M /\ Quiet
Step_differ ==
  /\ Ev.e = "differ"
  /\ Report(IF Ev.a # Ev.b THEN {} ELSE {Ev.label}, 0, 0)
  /\ M' = M /\ Quiet
(* the dataset is emptied                                                   *)
Step_clear == Ev.e = "clear" /\ Apply([C0 EXCEPT !.reg[Ev.r].data = EmptyFn], {})

(* best policies of a region's dataset (C05)                                *)
Step_best ==
  /\ Ev.e = "best"
  /\ LET d == S.reg[Ev.r].data
         hx == H[Ev.r]
         ks == Keys(d)
         b  == Ev.b
         li == Ev.l
         ok == /\ {b[i].k : i \in DOMAIN b} = ks
               /\ Len(b) = Cardinality(ks)
               /\ \A i \in DOMAIN b : /\ b[i].p \in {e[2] : e \in {x \in DOMAIN d : x[1] = b[i].k}}
                                      /\ d[<<b[i].k, b[i].p>>] = MinOf(d, b[i].k)
                                      /\ hx[<<b[i].k, b[i].p>>] = b[i].x
               /\ Len(li) = Len(b)
               /\ {<<li[i].k, li[i].p>> : i \in DOMAIN li} = {<<b[i].k, b[i].p>> : i \in DOMAIN b}
     IN Report(IF ok THEN {} ELSE {"best"}, d, b)
  /\ UNCHANGED <<S, H, Rows, Disk, M, run>>

(* the best policies b written to a trace file (6 digits, features cut to    *)
(* integers, so that rows of different vectors may read alike) are those of d *)
BestRows(d, b) ==
  LET of(i, k) == /\ b[i].p \in BestOf(d, k)
                  /\ Abs(b[i].u - MinOf(d, k)) <= 2 + (Abs(MinOf(d, k)) \div 50000)
      alike(q) == {k \in Keys(d) : CutOf(k) = q}
  IN /\ Len(b) = Cardinality(Keys(d))
     /\ \A i \in DOMAIN b : \E k \in alike(b[i].k) : of(i, k)
     /\ \A k \in Keys(d) : /\ (\E j \in DOMAIN b : b[j].k = CutOf(k) /\ of(j, k))
                            /\ Cardinality({i \in DOMAIN b : b[i].k = CutOf(k)}) = Cardinality(alike(CutOf(k)))
Step_bestfile ==
  /\ Ev.e = "bestfile"
  /\ LET d == S.reg[Ev.r].data
         b == Ev.b
     IN Report(IF BestRows(d, b) THEN {} ELSE {"best"}, d, b)
  /\ UNCHANGED <<S, H, Rows, Disk, M, run>>

(* Resources (C23). "loop": Ev.n whole executions of a region, at most       *)
(* Ev.lag + 1 unfinished at a time; "rep": an operation repeated; their      *)
(* effect on data is taken from the observation. "mem": heap, open files and *)
(* device events now; between two of them with the same entries in every     *)
(* dataset and no execution in flight nothing has grown (Ev.slack: what the  *)
(* library may keep once).                                                   *)
Step_loop ==
  /\ Ev.e \in {"loop", "rep", "kloop"}
  /\ LET T0 == [C0 EXCEPT !.reg = [r \in DOMAIN S.reg |-> [S.reg[r] EXCEPT !.data = ObsData(@, r, UnitOf)]]]
         O == Sync(T0, S)
     IN /\ Report((IF Ev.e = "loop" /\ (Ev.peak > 4 * (Ev.lag + 1) + 4 \/ Ev.lv > 4 * (Ev.lag + 1) + 4) THEN {"events"} ELSE {})
                  \cup (IF Ev.e = "loop" /\ O.reg[Ev.r].idx # S.reg[Ev.r].idx + Ev.n THEN {"idx"} ELSE {}), 0, 0)
        /\ S' = O /\ H' = SyncH(T0)
        /\ UNCHANGED <<Rows, Disk, M, run>>
Entries == {<<r, DOMAIN S.reg[r].data>> : r \in DOMAIN S.reg}
Step_mem ==
  /\ Ev.e = "mem"
  /\ LET m == M.mem
         now == [b |-> Ev.b, f |-> Ev.f, lv |-> Ev.lv, e |-> Entries]
     IN /\ Report(IF m = <<>> \/ m.e # now.e THEN {}
                  ELSE (IF now.b > m.b + Ev.slack \/ now.f > m.f THEN {"leak"} ELSE {})
                       \cup (IF now.lv > m.lv + 4 THEN {"events"} ELSE {}), 0, 0)
        /\ M' = [M EXCEPT !.mem = now]
        /\ Quiet

(* Files as text (C25). Ev.trees: what a stored or hand-written tree or      *)
(* forest file says; Ev.q answers of the model; Ev.r the region it was        *)
(* stored from ("" if none). Ev.dot: the picture the analysis tool made.      *)
(* Ev.own/Ev.src: a model stored again and the file it was loaded from.       *)
Step_stored ==
  /\ Ev.e = "stored"
  /\ LET ts == Ev.trees
         d == IF Ev.r = "" THEN EmptyFn ELSE S.reg[Ev.r].trn
         best(row) == row.k \in Keys(d) /\ row.y \in BestOf(d, row.k)
         rowsOk == \A j \in DOMAIN ts :
                     /\ \A i \in DOMAIN ts[j].rows : best(ts[j].rows[i])
                     /\ Len(ts[j].rows) = Cardinality(Keys(d))
                     /\ ~Ev.forest => {ts[j].rows[i].k : i \in DOMAIN ts[j].rows} = Keys(d)
         nm(j) == IF Ev.forest THEN "tree_" \o ToString(j - 1) ELSE "tree"
         boxes == UNION {Boxes(ts[j].root, nm(j) \o "_root") : j \in DOMAIN ts}
         arrows == UNION {Arrows(ts[j].root, nm(j) \o "_root") \cup {<<nm(j), nm(j) \o "_root">>} : j \in DOMAIN ts}
                   \cup (IF Ev.forest THEN {<<"rfc", nm(j)>> : j \in DOMAIN ts} ELSE {})
     IN Report((IF Len(ts) = Ev.n /\ FileAnswers(ts, Ev.q) THEN {} ELSE {"stored"})
               \cup (IF Ev.own = Ev.src /\ (Ev.made \/ \A j \in DOMAIN ts : TreeFileOk(ts[j])) /\ (Ev.r # "" => rowsOk) THEN {} ELSE {"stored-rows"})
               \cup (IF Ev.dot = <<>> \/ (/\ {<<Ev.dot[1].boxes[i].n, Ev.dot[1].boxes[i].txt>> : i \in DOMAIN Ev.dot[1].boxes} = boxes
                                          /\ {Ev.dot[1].arrows[i] : i \in DOMAIN Ev.dot[1].arrows} = arrows
                                          /\ Len(Ev.dot[1].boxes) = Cardinality(boxes)) THEN {} ELSE {"picture"}), 0, 0)
  /\ M' = M /\ Quiet
(* rows of a dataset file stored from region Ev.r                            *)
Step_dsfile ==
  /\ Ev.e = "dsfile"
  /\ LET b == Ev.rows IN
     Report(IF /\ Len(b) = Cardinality(DOMAIN S.reg[Ev.r].data)
               /\ {<<b[i].k, b[i].p>> : i \in DOMAIN b} = DOMAIN S.reg[Ev.r].data
               /\ \A i \in DOMAIN b : b[i].x = H[Ev.r][<<b[i].k, b[i].p>>]
            THEN {} ELSE {"stored-data"}, 0, 0)
  /\ M' = M /\ Quiet
(* a dataset file written by somebody else: rows in order, Ev.h exact values *)
Step_disk ==
  /\ Ev.e = "disk"
  /\ Disk' = (Ev.r :> [d |-> FoldSeq2(LAMBDA a, x : Insert(a, x.k, x.p, x.u), EmptyFn, Ev.rows),
                       h |-> [y \in {<<Ev.h[i].k, Ev.h[i].p>> : i \in DOMAIN Ev.h} |-> Ev.h[CHOOSE i \in DOMAIN Ev.h : <<Ev.h[i].k, Ev.h[i].p>> = y].x]]) @@ Disk
  /\ Report({}, 0, 0)
  /\ UNCHANGED <<S, H, Rows, M, run>>

(* the scenario and the configuration it came from mean the same            *)
Step_conf ==
  /\ Ev.e = "conf"
  /\ LET f == Effective(Ev.conf) R == S.reg[Ev.r] IN
     Assert(R.mdl = f.mdl /\ R.par = f.par /\ (R.mdl \in Learning => R.exp = f.exp) /\ f.depth = Ev.depth /\ f.trees = Ev.trees,
            <<"meaning of the configuration", run, f>>)
  /\ Report({}, 0, 0)
  /\ M' = M /\ Quiet

-----------------------------------------------------------------------------
(* The Kokkos connector (C16, C17). A request names its problem (pr: the     *)
(* variables' ids), the tuning variables (vars) and the values they got (w,  *)
(* or "?" where a value is no multiple of the variable's unit). A region is  *)
(* created with the first request of a problem; its name is as observed, its *)
(* model is the stored one if this problem has one.                          *)
KNewRegion ==
  LET n == Ev.new[1]
      file == S.cfg.mdir \o "/RandomForest-step-0" \o Rank(S) \o n.r \o ".yaml"
      has == file \in DOMAIN M.files
      tr == Ev.mdl \in Learning /\ ~has
      R == NewRegion(Len(Ev.k), Product(Ev.vars), 0, IF has THEN "RandomForest" ELSE Ev.mdl, IF Ev.par < Product(Ev.vars) THEN Ev.par ELSE 0, "RoundRobin", tr)
      m0 == [M EXCEPT !.id = (n.r :> (M.next + 1)) @@ M.id, !.next = @ + 1, !.k.unconv = IF has THEN @ ELSE @ + 1]
      D == S.cfg.persist /\ n.r \in DOMAIN Disk
  IN [S |-> AddRegion(C0, n.r, Append(S.ord, n.r), IF D THEN [R EXCEPT !.data = Disk[n.r].d] ELSE R),
      M |-> IF has THEN Loaded(m0, n.r, file) ELSE m0]

Step_kreq ==
  /\ Ev.e = "kreq"
  /\ IF Ev.vars = <<>> THEN Apply(C0, {})          \* nothing requested
     ELSE
     LET isnew == Ev.pr \notin DOMAIN M.k.prob
         okreg == IF isnew THEN Len(Ev.new) = 1 /\ Ev.new[1].r \notin DOMAIN S.reg ELSE Ev.new = <<>>
         fit   == ~isnew \/ (Ev.new[1].nf = Len(Ev.k) /\ Ev.new[1].np = Product(Ev.vars))
         vals  == /\ Len(Ev.w) = Len(Ev.vars)
                  /\ \A i \in DOMAIN Ev.w : Ev.ok[i] /\ IsCand(Ev.vars[i], Ev.w[i])
     IN IF ~okreg
        THEN /\ IF Mine("kregion") /\ ~bad THEN PrintT(<<"MISMATCH", run, l, {"kregion"}>>) ELSE TRUE
             /\ bad' = TRUE /\ UNCHANGED <<S, H, Rows, Disk, M, run>>
        ELSE LET B == IF isnew THEN KNewRegion ELSE [S |-> C0, M |-> M]
                 r == IF isnew THEN Ev.new[1].r ELSE M.k.prob[Ev.pr]
                 R == B.S.reg[r]
                 known == PolicyOf(B.M.k, r, Ev.w)
                 ch == Choices(R, Ev.k)
                 \* exploration determines the policy, a learned decision is known by its combination
                 p == IF ExplorerKind(R) \in {"RoundRobin", "Static"} THEN CHOOSE y \in ch : TRUE ELSE known
                 fx == ExplorerKind(R) = "learned"
                 T == KRequestS(B.S, r, Ev.c, Ev.k, p)
                 K1 == KRequestK(B.M.k, Ev.x, Ev.pr, r, Ev.c, p, Ev.w)
                 m1 == IF fx /\ p # -1 THEN Dec(B.M, r, Ev.k, p) ELSE B.M
             IN ApplyM(T, [m1 EXCEPT !.k = K1],
                       (IF vals THEN {} ELSE {"kvalue"})
                       \cup (IF fit THEN {} ELSE {"kcombo"})
                       \cup (IF p = -1 \/ CombOk(B.M.k, r, p, Ev.w) THEN {} ELSE {"kcombo"})
                       \cup (IF fx /\ p # -1 /\ p \notin ch THEN {"choice-learned"} ELSE {})
                       \cup (IF fx /\ p # -1 /\ ~DecOk(B.M, r, Ev.k, p) THEN {"decision"} ELSE {}))

(* the end: where the policy is not known yet, the recorded entry names it   *)
Step_kend ==
  /\ Ev.e = "kend"
  /\ IF ~Open(M.k, Ev.x) THEN Apply(C0, {})
     ELSE LET kc == M.k.ctx[Ev.x]
              c == kc.c
              r == kc.r
              x == S.ctx[c]
              here == {i \in DOMAIN Ev.ds : Ev.ds[i].r = r /\ Ev.ds[i].k = x.feats}
              p == IF x.pol # -1 THEN x.pol
                   ELSE IF here = {} THEN -1 ELSE Ev.ds[CHOOSE i \in here : TRUE].p
              rec == Records(S, r)
              K1 == Bind(M.k, r, p, kc.v)
              S1 == [C0 EXCEPT !.ctx[c].pol = p]
              T == KEndS(S1, M.k, Ev.x)
              m == Trained([M EXCEPT !.k = KEndK(K1, Ev.x)], T)
          IN ApplyM(T, m,
               (IF p = -1 \/ CombOk(M.k, r, p, kc.v) THEN {} ELSE {"kpolicy"})
               \cup (IF rec /\ p = -1 THEN {"kpolicy"} ELSE {}))

Step_kpar ==
  /\ Ev.e = "kpar"
  /\ Apply(C0, IF Ev.fences = Fences(M.k, Ev.dev) THEN {} ELSE {"kfence"})

Step_exit == Ev.e = "exit" /\ Apply(C0, {})

(* End of a run: what shutdown left behind. Pending executions are          *)
(* collected in any order, nothing else changes.                            *)
PendAll(r) == S.reg[r].pend
FinalOk(r, o) ==
  LET R == S.reg[r]
      pk == {<<S.ctx[R.pend[i]].feats, S.ctx[R.pend[i]].pol>> : i \in DOMAIN R.pend}
      pm(x) == {S.ctx[R.pend[i]].m : i \in {j \in DOMAIN R.pend :
                  <<S.ctx[R.pend[j]].feats, S.ctx[R.pend[j]].pol>> = x}}
  IN /\ DOMAIN o = DOMAIN R.data \cup pk
     /\ \A x \in DOMAIN o :
          IF x \notin pk THEN o[x] = R.data[x]
          ELSE LET all == pm(x) \cup (IF x \in DOMAIN R.data THEN {R.data[x]} ELSE {})
               IN /\ \E v \in all : v <= o[x] + 2
                  /\ \E v \in all : o[x] - 2 <= v
                  /\ (Cardinality(all) > 1 => \A v \in all : \/ ~Near(v, o[x])
                                                              \/ \E w \in all : w # v /\ Near(w, v))

FileData(r, val(_)) ==
  LET up == {i \in DOMAIN Ev.ds : Ev.ds[i].r = r}
  IN [x \in {Entry(Ev.ds[i]) : i \in up} |-> val(Ev.ds[CHOOSE i \in up : Entry(Ev.ds[i]) = x])]

PendCount == LET Op(acc, r) == acc + Len(S.reg[r].pend) IN FoldSeq2(Op, 0, S.ord)

SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in Range(a) \cup Range(b) :
                      Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})

RowOf(r, c) == LET x == S.ctx[c] IN <<r, ToString(x.no), x.feats, ToString(x.pol)>>
CsvOk(r) ==
  LET rows == Ev.csv[r]
      exp  == IF r \in DOMAIN Rows.r THEN Rows.r[r] ELSE <<>>
      pend == S.reg[r].pend
      key(i) == <<rows[i].r, rows[i].i, rows[i].f, rows[i].p>>
  IN /\ Len(rows) = Len(exp) + Len(pend)
     /\ \A i \in DOMAIN rows : rows[i].rank = ToString(S.cfg.rank) /\ rows[i].m = S.reg[r].mdl
     /\ \A i \in DOMAIN exp : /\ key(i) = RowOf(r, exp[i].c)
                              /\ Abs(rows[i].u - exp[i].m) <= 4 + (Abs(exp[i].m) \div 50000)
     /\ SameBag([i \in DOMAIN pend |-> key(Len(exp) + i)], [i \in DOMAIN pend |-> RowOf(r, pend[i])])
     /\ \A i \in DOMAIN pend : \E j \in DOMAIN pend :
           /\ key(Len(exp) + i) = RowOf(r, pend[j])
           /\ Abs(rows[Len(exp) + i].u - S.ctx[pend[j]].m) <= 4 + (Abs(S.ctx[pend[j]].m) \div 50000)

GKey(c) == LET x == S.ctx[c] IN <<x.r, ToString(x.no), S.reg[x.r].mdl, ToString(x.pol)>>
AllPend == LET Op(acc, r) == acc \o S.reg[r].pend IN FoldSeq2(Op, <<>>, S.ord)
GCsvOk ==
  LET rows == Ev.gcsv
      n == Len(Rows.g)
      key(i) == <<rows[i].r, rows[i].i, rows[i].m, rows[i].p>>
  IN /\ Len(rows) = n + Len(AllPend)
     /\ \A i \in 1..n : key(i) = GKey(Rows.g[i])
     /\ SameBag([i \in DOMAIN AllPend |-> key(n + i)], [i \in DOMAIN AllPend |-> GKey(AllPend[i])])

(* Collecting what is pending at shutdown trains as any other collection,   *)
(* except that the global period no longer applies.                         *)
TrainsAtExit(r) ==
  LET R == S.reg[r]
      pk == {<<S.ctx[R.pend[i]].feats, S.ctx[R.pend[i]].pol>> : i \in DOMAIN R.pend}
  IN /\ R.tr /\ R.pend # <<>>
     /\ \/ S.cfg.rper > 0 /\ R.idx % S.cfg.rper = 0
        \/ R.min > 0 /\ R.min <= Cardinality(DOMAIN R.data \cup pk)

(* the files of best policies, one per region and step trained               *)
(* (what those of trainings at shutdown say is left open: r = "")             *)
LateFiles == IF S.cfg.bestp /\ ~S.cfg.single THEN {BestName(S, r, S.reg[r].idx) : r \in {q \in DOMAIN S.reg : TrainsAtExit(q)}} ELSE {}
BestFilesOk ==
  /\ DOMAIN Ev.bf = DOMAIN Rows.b \cup LateFiles
  /\ \A f \in DOMAIN Rows.b \ LateFiles : Rows.b[f].r # "" => Ev.bf[f].r = Rows.b[f].r /\ BestRows(Rows.b[f].d, Ev.bf[f].b)

Step_final ==
  /\ Ev.e = "final"
  /\ LET regs == DOMAIN S.reg
         lbl == (IF S.cfg.persist /\ \E r \in regs : ~FinalOk(r, FileData(r, UnitOf)) THEN {"final"} ELSE {})
           \cup (IF S.cfg.persist /\ \E r \in regs :
                      LET h == FileData(r, HexOf)
                          pk == {<<S.ctx[c].feats, S.ctx[c].pol>> : c \in Range(S.reg[r].pend)}
                      IN \E x \in DOMAIN H[r] \ pk : x \in DOMAIN h /\ h[x] # H[r][x]
                 THEN {"final-exact"} ELSE {})
           \cup (IF ~S.cfg.persist /\ Ev.ds # <<>> THEN {"final"} ELSE {})
           \cup (IF Ev.tot # -1 /\ Ev.tot # S.tot + PendCount THEN {"total"} ELSE {})
           \cup (IF Ev.hasexec /\ ~(/\ Len(Ev.exec) = Cardinality(regs)
                                   /\ {<<Ev.exec[i][1], Ev.exec[i][2]>> : i \in DOMAIN Ev.exec}
                                        = {<<r, S.reg[r].idx>> : r \in regs}) THEN {"exec-info"} ELSE {})
           \cup (IF Ev.hasm /\ Range(Ev.mfiles) # {LatestFile(S, r) : r \in {q \in regs : HasFile(S.reg[q]) /\ (S.reg[q].gen > 0 \/ TrainsAtExit(q))}}
                 THEN {"files-final"} ELSE {})
           \cup (IF S.cfg.csv /\ \E r \in regs : ~CsvOk(r) THEN {"csv"} ELSE {})
           \cup (IF S.cfg.csv /\ ~GCsvOk THEN {"csv-global"} ELSE {})
           \cup (IF Ev.hasp /\ (Ev.prows # Rows.p \/ Ev.pout # SubSeq(Rows.p, Rows.p0 + 1, Len(Rows.p))) THEN {"ptrace"} ELSE {})
           \cup (IF Ev.hasb /\ ~BestFilesOk THEN {"bestfiles"} ELSE {})
     IN /\ Report(lbl, S, Ev)
        /\ Disk' = IF S.cfg.persist
                   THEN [r \in {Ev.ds[i].r : i \in DOMAIN Ev.ds} |->
                           [d |-> FileData(r, UnitOf), h |-> FileData(r, HexOf)]] @@ Disk
                   ELSE Disk
  /\ Rows' = [Rows EXCEPT !.b = [f \in LateFiles |-> [r |-> "", d |-> EmptyFn]] @@ @]
  /\ UNCHANGED <<S, H, M, run>>

Step_fin ==
  /\ Ev.e = "fin"
  /\ Report(IF Ev.status \in (IF Ev.conf = <<>> THEN Range(Ev.expect) ELSE {Verdict(Ev.conf[1], FALSE)})
            THEN {} ELSE {"status"}, Ev.expect, Ev.status)
  /\ UNCHANGED <<S, H, Rows, Disk, M, run>>

-----------------------------------------------------------------------------
Init == /\ l = 1
        /\ S = InitS([persist |-> FALSE])
        /\ H = [x \in {} |-> 0] /\ Rows = NoRows
        /\ Disk = [x \in {} |-> 0] /\ run = "" /\ bad = FALSE
        /\ M = [id |-> [x \in {} |-> 0], files |-> [x \in {} |-> 0], dec |-> [x \in {} |-> 0], next |-> 0, mem |-> <<>>, pn |-> [x \in {} |-> FALSE], k |-> InitK]

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \/ Step_run \/ Step_create \/ Step_begin \/ Step_feat \/ Step_pol \/ Step_q
           \/ Step_end \/ Step_endm \/ Step_done \/ Step_adv \/ Step_train \/ Step_traina
           \/ Step_collect \/ Step_load \/ Step_nop \/ Step_insert \/ Step_bulk \/ Step_seq \/ Step_best \/ Step_bestfile
           \/ Step_mload \/ Step_mq \/ Step_mstore \/ Step_mtr \/ Step_store \/ Step_copy
           \/ Step_draw \/ Step_probs \/ Step_learns \/ Step_moved \/ Step_tree \/ Step_perfect \/ Step_forest \/ Step_same \/ Step_differ \/ Step_pnet \/ Step_clear \/ Step_loop \/ Step_mem \/ Step_stored \/ Step_dsfile \/ Step_disk
           \/ Step_kreq \/ Step_kend \/ Step_kpar \/ Step_conf \/ Step_exit \/ Step_final \/ Step_fin

Spec == Init /\ [][Next]_vars

View == l
Accepted == PrintT(<<"TRACE-END", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
