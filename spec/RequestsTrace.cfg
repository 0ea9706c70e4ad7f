CONSTANT Mode = "trace"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW TraceView
