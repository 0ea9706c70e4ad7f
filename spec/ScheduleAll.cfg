CONSTANT Deterministic = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
