CONSTANTS
 Mode = "trace"
 N = 1
 M = 4
 Base = 1
 Program <- ProgB
 MayTest = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW TraceView
