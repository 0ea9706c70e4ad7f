CONSTANTS
 Mode = "model"
 N = 3
 M = 16
 Base = 14
 Program <- ProgMix
 MayTest = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Separation
INVARIANT Window
INVARIANT NotStuck
