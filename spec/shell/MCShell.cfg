SPECIFICATION Spec
INVARIANTS DrivesOk VarsOk TreeOk Emit
PROPERTIES NotLost SavedOk OneFile DemosOk
CHECK_DEADLOCK FALSE
