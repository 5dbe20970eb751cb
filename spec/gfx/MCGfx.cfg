SPECIFICATION Spec
INVARIANTS SyncOk TypeOk CoverOk FillOk CirclesOk Emit
PROPERTIES PaintOk
CHECK_DEADLOCK FALSE
