----------------------------- MODULE FileNames -----------------------------
(* Names of the files a process with a rank writes and reads. Processes of   *)
(* one job share the directory, so names of different ranks must differ.     *)
EXTENDS Integers, Sequences, TLC

RankPart(rank) == "-rank-" \o ToString(rank)
StepFileOf(dir, mdl, step, rank, r) == dir \o "/" \o mdl \o "-step-" \o ToString(step) \o RankPart(rank) \o "-" \o r \o ".yaml"
LatestFileOf(dir, mdl, rank, r) == dir \o "/" \o mdl \o "-latest" \o RankPart(rank) \o "-" \o r \o ".yaml"
BestFileOf(step, rank, r) == "step-" \o ToString(step) \o RankPart(rank) \o "-" \o r \o "-best_policies.txt"
CsvFileOf(dir, info, rank, r) == dir \o "/trace-" \o info \o "-region-" \o r \o RankPart(rank) \o ".csv"
AllCsvFileOf(dir, rank) == dir \o "/trace" \o RankPart(rank) \o ".csv"
PolicyFileOf(rank) == "rank-" \o ToString(rank) \o "-policies.txt"
OptimalFileOf(rank, r) == "opt-" \o r \o RankPart(rank) \o ".txt"
=============================================================================
