CONSTANTS
 Mode = "histories"
 N = 1
 Colls = {1, 2, 3}
 Comms = 1
 MaxLen = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW HistView
