SPECIFICATION Spec
INVARIANTS LogOk TraceOk IgnoreOk Emit
PROPERTIES ClockOk FailOk ModeOk PinsOk RndOk
CHECK_DEADLOCK FALSE
