CONSTANTS
 Mode = "model"
 N = 2
 Colls = {1, 2}
 Comms = 1
 MaxLen = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Held
INVARIANT InUse
INVARIANT NoLeak
INVARIANT NotStuck
