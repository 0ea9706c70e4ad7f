CONSTANTS
 Mode = "model"
 N = 2
 M = 8
 Base = 3
 Program <- ProgB3
 MayTest = TRUE
SPECIFICATION Fair
CHECK_DEADLOCK FALSE
INVARIANT Separation
INVARIANT Window
INVARIANT NotStuck
PROPERTY Terminates
