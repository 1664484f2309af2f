---------------------------- MODULE SListTrace ----------------------------
EXTENDS SList, History
CONSTANT UseIds
VARIABLES l, st
INSTANCE Judge WITH StepOp <- Step, Start <- Init0, Ids <- UseIds, Log <- TheLog, AuxOk <- NoAux
=============================================================================
