SPECIFICATION Spec
CONSTANTS
  NV = 2
  R = 1
  Vals = {"1","2"}
  MaxIt = 4
  Trial = FALSE Abs = "0.5" Rel = "1"
INVARIANT InvCover InvBounds InvInc InvVerdict InvCount InvGlobal
PROPERTY Monotone Ends
CHECK_DEADLOCK FALSE
