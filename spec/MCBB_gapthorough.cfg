SPECIFICATION Spec
CONSTANTS
  NV = 2
  R = 1
  Vals = {"-2","1","2"}
  MaxIt = 4
  Trial = FALSE Abs = 1 Rel = "0.6"
INVARIANT InvCover InvBounds InvInc InvVerdict InvCount InvGlobal
PROPERTY Monotone Ends
CHECK_DEADLOCK FALSE
