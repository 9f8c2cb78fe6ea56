SPECIFICATION Spec
INVARIANT InitOk
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Done
