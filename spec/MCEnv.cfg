SPECIFICATION Spec
INVARIANT PropsHold
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Done
