------------------------------ MODULE Layout ------------------------------
(***************************************************************************)
(* C01.  The layout of the flat decision vector of an optimal-control      *)
(* problem and every view the library offers on it.                        *)
(*                                                                         *)
(* A problem shape fixes: the variable groups in order with their sizes,   *)
(* the number of intervals, the stages per interval and the number of      *)
(* global variables.  The vector holds, stage after stage, all groups one  *)
(* after the other, then the globals.  Positions are 0-based.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* shape = [groups |-> <<[name, size], ...>>, nI, nS, nG]
NumStages(sh)   == sh.nI * (sh.nS - 1) + 1
NumVarStage(sh) == SumSeq([k \in 1..Len(sh.groups) |-> sh.groups[k].size])
NumStageVars(sh) == NumStages(sh) * NumVarStage(sh)
NumDec(sh)      == NumStageVars(sh) + sh.nG
GroupNo(sh, g)  == CHOOSE k \in 1..Len(sh.groups) : sh.groups[k].name = g
GroupNames(sh)  == {sh.groups[k].name : k \in 1..Len(sh.groups)}
GroupSize(sh, g) == sh.groups[GroupNo(sh, g)].size
GroupOffset(sh, g) ==
    SumSeq([k \in 1..(GroupNo(sh, g) - 1) |-> sh.groups[k].size])

\* Stages are addressed -N..N-1, negative ones from the end.
StageOK(sh, st) == st >= -NumStages(sh) /\ st < NumStages(sh)
NormStage(sh, st) == IF st < 0 THEN st + NumStages(sh) ELSE st

\* The one position owned by variable i (0-based in its group) at a stage
Pos(sh, g, i, st) == NormStage(sh, st) * NumVarStage(sh) + GroupOffset(sh, g) + i
GlobalPos(sh, j)  == NumStageVars(sh) + j          \* j 0-based

--------------------------------------------------------------------------
(* Views, all expressed through Pos *)

AllStages(sh, g, i) == [k \in 1..NumStages(sh) |-> Pos(sh, g, i, k - 1)]
GroupAtStage(sh, g, st) == [i \in 1..GroupSize(sh, g) |-> Pos(sh, g, i - 1, st)]
GroupTable(sh, g) ==        \* stages x variables
    [k \in 1..NumStages(sh) |-> GroupAtStage(sh, g, k - 1)]
\* interval view: stage w of interval b is stage b*(nS-1)+w
IntervalTensor(sh, g) ==
    [b \in 1..sh.nI |-> [w \in 1..sh.nS |->
        GroupAtStage(sh, g, (b - 1) * (sh.nS - 1) + (w - 1))]]
StageRow(sh, st) == [c \in 1..NumVarStage(sh) |-> st * NumVarStage(sh) + c - 1]
StageTable(sh) == [k \in 1..NumStages(sh) |-> StageRow(sh, k - 1)]
Globals(sh) == [j \in 1..sh.nG |-> GlobalPos(sh, j - 1)]

\* flat index inside one stage (the model's own flat input)
FlatIndex(sh, g, i) == GroupOffset(sh, g) + i

--------------------------------------------------------------------------
(* generic helpers the views are built from *)

\* cutting a sequence of rows into windows
ConvOK(len, width, stride) == len >= width /\ (len - width) % stride = 0
Conv(len, width, stride) ==     \* row numbers, 0-based
    [b \in 1..((len - width) \div stride + 1) |->
        [w \in 1..width |-> (b - 1) * stride + (w - 1)]]

OffsetStruct(base, off, blocks) ==
    [n \in 1..(Len(base) * blocks) |->
        base[((n - 1) % Len(base)) + 1] + ((n - 1) \div Len(base)) * off]

--------------------------------------------------------------------------
(* Design properties *)

StageVarSet(sh) ==
    UNION {{<<g, i, k>> : i \in 0..(GroupSize(sh, g) - 1), k \in 0..(NumStages(sh) - 1)}
           : g \in GroupNames(sh)}

Bijective(sh) ==
    LET S == {Pos(sh, v[1], v[2], v[3]) : v \in StageVarSet(sh)}
        G == {GlobalPos(sh, j) : j \in 0..(sh.nG - 1)}
    IN  /\ S \cup G = 0..(NumDec(sh) - 1)
        /\ S \cap G = {}
        /\ Cardinality(S) = Cardinality(StageVarSet(sh))
        /\ Cardinality(G) = sh.nG

NegativeFromEnd(sh) ==
    \A g \in GroupNames(sh) : \A i \in 0..(GroupSize(sh, g) - 1) :
        \A k \in 1..NumStages(sh) :
            Pos(sh, g, i, -k) = Pos(sh, g, i, NumStages(sh) - k)

\* the last stage of an interval is the first stage of the next one and
\* nothing else is shared
IntervalsOverlapOnce(sh) ==
    \A g \in GroupNames(sh) :
        LET T == IntervalTensor(sh, g) IN
        /\ \A b \in 1..(sh.nI - 1) : T[b][sh.nS] = T[b + 1][1]
        /\ \A a, b \in 1..sh.nI : \A v, w \in 1..sh.nS :
              (GroupSize(sh, g) > 0 /\ T[a][v] = T[b][w]) =>
                 \/ (a = b /\ v = w)
                 \/ (b = a + 1 /\ v = sh.nS /\ w = 1)
                 \/ (a = b + 1 /\ w = sh.nS /\ v = 1)

ViewsAgree(sh) ==
    /\ \A k \in 1..NumStages(sh) : \A g \in GroupNames(sh) : \A i \in 1..GroupSize(sh, g) :
          /\ GroupTable(sh, g)[k][i] = AllStages(sh, g, i - 1)[k]
          /\ StageTable(sh)[k][GroupOffset(sh, g) + i] = Pos(sh, g, i - 1, k - 1)
    \* the interval view is the generic window cut of the stages
    /\ ConvOK(NumStages(sh), sh.nS, sh.nS - 1)
    /\ Len(Conv(NumStages(sh), sh.nS, sh.nS - 1)) = sh.nI

LayoutOK(sh) == Bijective(sh) /\ NegativeFromEnd(sh) /\ IntervalsOverlapOnce(sh) /\ ViewsAgree(sh)
=============================================================================
