CONSTANTS
 Mode = "model"
 N = 4
 M = 16
 Base = 6
 Program <- ProgB
 MayTest = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Separation
INVARIANT Window
INVARIANT NotStuck
