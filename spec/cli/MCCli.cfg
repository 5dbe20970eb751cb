SPECIFICATION Spec
INVARIANT UsageIsClean
INVARIANT QuietSuccess
PROPERTY StepPure
PROPERTY Keeps
CHECK_DEADLOCK FALSE
