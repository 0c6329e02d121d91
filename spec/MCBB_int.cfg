SPECIFICATION Spec
CONSTANTS
  NV = 1
  R = 3
  Vals = {"0","1"}
  MaxIt = 4
  Trial = TRUE Abs = 0 Rel = 0
INVARIANT InvCover InvBounds InvInc InvVerdict InvCount InvGlobal
PROPERTY Monotone Ends
CHECK_DEADLOCK FALSE
