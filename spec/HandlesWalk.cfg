CONSTANTS
  Mode = "model"
  Size = 4
  Homes <- HomesFull
  MaxColl = 4
  Grows = TRUE
  Users = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW ModelView
INVARIANT Faithful
INVARIANT Counted
