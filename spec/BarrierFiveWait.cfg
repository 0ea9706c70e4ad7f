CONSTANTS
 Mode = "model"
 N = 5
 M = 32
 Base = 14
 Program <- ProgB
 MayTest = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Separation
INVARIANT Window
INVARIANT NotStuck
