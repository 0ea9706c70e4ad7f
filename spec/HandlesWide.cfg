CONSTANTS
  Mode = "model"
  Size = 8
  Homes <- HomesWide
  MaxColl = 4
  Grows = FALSE
  Users = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW ModelView
INVARIANT Faithful
INVARIANT Counted
