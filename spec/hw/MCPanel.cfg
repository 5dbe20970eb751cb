SPECIFICATION Spec
INVARIANTS SyncOk GenOk Emit
CHECK_DEADLOCK FALSE
