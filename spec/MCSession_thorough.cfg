SPECIFICATION Spec
CONSTANTS
  Bufs = {0,1}
  Wss = {0,1}
  Vals = {0,1}
  MaxHist = 2
  Sets = {}
CONSTRAINT Bound
INVARIANT Inv0
PROPERTY Frame BackStays
CHECK_DEADLOCK FALSE
