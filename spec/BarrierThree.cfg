CONSTANTS
 Mode = "model"
 N = 3
 M = 16
 Base = 6
 Program <- ProgB
 MayTest = TRUE
SPECIFICATION Fair
CHECK_DEADLOCK FALSE
INVARIANT Separation
INVARIANT Window
INVARIANT NotStuck
PROPERTY Terminates
