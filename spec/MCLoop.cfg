SPECIFICATION Spec
CONSTANTS
  MaxIt = 2
  Ranks = {0,1,2}
INVARIANT InvExit InvBest InvClean InvIntr NoSpuriousIntr
PROPERTY NoVisitAfterIntr Terminates
CHECK_DEADLOCK FALSE
