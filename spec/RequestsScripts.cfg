CONSTANT Mode = "scripts"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
