SPECIFICATION Spec
INVARIANT Judge
VIEW View
CHECK_DEADLOCK FALSE
