---------------------------- MODULE VMapsTrace ----------------------------
EXTENDS VMaps, History
CONSTANT UseIds
VARIABLES l, st
INSTANCE Judge WITH StepOp <- VStep, Start <- Caps0, Ids <- UseIds, Log <- TheLog, AuxOk <- NoAux
=============================================================================
