CONSTANT Mode = "model"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT ReportedOnce
INVARIANT NeverEarly
INVARIANT CanGetOn
