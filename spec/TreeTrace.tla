----------------------------- MODULE TreeTrace -----------------------------
EXTENDS Tree, History
CONSTANTS UseIds, Structure
VARIABLES l, st
TreesOk(o, e) == Structure => GoodTrees(e)
INSTANCE Judge WITH StepOp <- TreeStep, Start <- Init0, Ids <- UseIds, Log <- TheLog, AuxOk <- TreesOk
=============================================================================
