CONSTANTS
  Mode = "trace"
  Size = 1
  Homes <- HomesWide
  MaxColl = 1
  Grows = FALSE
  Users = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW TraceView
