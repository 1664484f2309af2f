----------------------------- MODULE BitsTrace -----------------------------
EXTENDS Bits, History
VARIABLES l, st
INSTANCE Judge WITH StepOp <- Step, Start <- Init0, Ids <- FALSE, Log <- TheLog, AuxOk <- NoAux
=============================================================================
