SPECIFICATION Spec
INVARIANTS TypeOk SyncOk Emit
CHECK_DEADLOCK FALSE
