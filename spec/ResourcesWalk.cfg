CONSTANTS
 Mode = "histories"
 N = 1
 Colls = {1, 2, 3, 4, 5}
 Comms = 2
 MaxLen = 14
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

