SPECIFICATION Spec
CONSTANTS
  NV = 2
  R = 1
  Vals = {"0","1"}
  MaxIt = 4
  Trial = FALSE Abs = 0 Rel = 0
INVARIANT InvCover InvBounds InvInc InvVerdict InvCount InvGlobal
PROPERTY Monotone Ends
CHECK_DEADLOCK FALSE
