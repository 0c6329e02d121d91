SPECIFICATION Spec
INVARIANT StateInv
CHECK_DEADLOCK FALSE
