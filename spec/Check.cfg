SPECIFICATION Spec
CONSTANT World <- WorldOf
INVARIANT Emit
CHECK_DEADLOCK FALSE
