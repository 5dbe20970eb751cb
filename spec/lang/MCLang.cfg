SPECIFICATION Spec
INVARIANTS FramesOk TypesOk IdleOk ResultsOk Emit
CHECK_DEADLOCK FALSE
