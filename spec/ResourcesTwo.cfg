CONSTANTS
 Mode = "model"
 N = 2
 Colls = {1, 2}
 Comms = 0
 MaxLen = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Held
INVARIANT InUse
INVARIANT NoLeak
INVARIANT NotStuck
