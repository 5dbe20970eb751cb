SPECIFICATION Spec
INVARIANTS SessionOk DrivesOk Emit
PROPERTIES AuthOk StartOk OwnerOk StoredOk QuietOk FailedOk
CHECK_DEADLOCK FALSE
