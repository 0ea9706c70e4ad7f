CONSTANTS
 Mode = "trace"
 N = 1
 Colls = {1}
 Comms = 0
 MaxLen = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW TraceView
