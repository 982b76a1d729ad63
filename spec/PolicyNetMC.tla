---------------------------- MODULE PolicyNetMC -----------------------------
(***************************************************************************)
(* The state machine of one PolicyNet: training on batches, requests that  *)
(* use and fill the cache, storing and loading. Weights are versions; a    *)
(* distribution is the version it was computed from.                       *)
(***************************************************************************)
EXTENDS PolicyNet, TLC
CONSTANTS Beta, Thr, Rewards, Feats, MaxTrain, MaxOps

VARIABLES w, nw, cache, bs, file, out, ops
vars == <<w, nw, cache, bs, file, out, ops>>
NoFile == [w |-> 0, bs |-> <<>>]
None == [f |-> "", p |-> "", v |-> 0, below |-> FALSE, old |-> 0]

Init == w = 1 /\ nw = 1 /\ cache = [f \in Feats |-> 0] /\ bs = <<>> /\ file = NoFile /\ out = None /\ ops = 0

Train(b) ==
  /\ Len(bs) < MaxTrain
  /\ bs' = Append(bs, b)
  /\ LET learn == ~Below(Beta, Thr, bs')
     IN /\ nw' = IF learn THEN nw + 1 ELSE nw
        /\ w' = IF learn THEN nw + 1 ELSE w
        /\ out' = [None EXCEPT !.f = "train", !.below = ~learn, !.old = w]
  /\ cache' = [f \in Feats |-> 0]
  /\ UNCHANGED file

Get(f) ==
  /\ IF Below(Beta, Thr, bs)
     THEN out' = [None EXCEPT !.f = f, !.p = "zero", !.below = TRUE] /\ UNCHANGED cache
     ELSE LET v == IF cache[f] # 0 THEN cache[f] ELSE w
          IN out' = [None EXCEPT !.f = f, !.p = "draw", !.v = v] /\ cache' = [cache EXCEPT ![f] = v]
  /\ UNCHANGED <<w, nw, bs, file>>

Store == file' = [w |-> w, bs |-> bs] /\ out' = None /\ UNCHANGED <<w, nw, cache, bs>>
Load == /\ file # NoFile
        /\ w' = file.w /\ bs' = file.bs /\ cache' = [f \in Feats |-> 0]
        /\ out' = None /\ UNCHANGED <<nw, file>>

Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E a, b \in Rewards : Train(<<a, b>>)
           \/ \E f \in Feats : Get(f)
           \/ Store \/ Load
Spec == Init /\ [][Next]_vars

(* drawn and cached distributions are those of the current weights          *)
Current == /\ \A f \in Feats : cache[f] \in {0, w}
           /\ out.p = "draw" => out.v = w
(* below the threshold: policy 0, and training leaves the weights           *)
Quiet == (out.p = "zero") => Below(Beta, Thr, bs)
Frozen == (out.f = "train" /\ out.below) => w = out.old
(* the average lies between the extreme batch means, and is the mean of a   *)
(* constant sequence                                                        *)
Between == bs # <<>> =>
  LET ms == {RewardMean(bs[i]) : i \in DOMAIN bs}
      a == AvgReward(Beta, bs)
  IN (\E m \in ms : m <= a + 15) /\ (\E m \in ms : a - 15 <= m)
=============================================================================
