CONSTANTS
 Mode = "model"
 N = 3
 Colls = {1, 2}
 Comms = 0
 MaxLen = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Held
INVARIANT InUse
INVARIANT NoLeak
INVARIANT NotStuck
