----------------------------- MODULE AlgoTrace -----------------------------
EXTENDS Algo, History
VARIABLES l, st
INSTANCE Judge WITH StepOp <- Step, Start <- Start0, Ids <- FALSE, Log <- TheLog, AuxOk <- NoAux
=============================================================================
