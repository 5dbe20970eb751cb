SPECIFICATION Spec
INVARIANTS CursorOk SyncOk LineOk HistOk EditorOk EditorShown Emit
PROPERTIES AltOk MovesKeep
CHECK_DEADLOCK FALSE
