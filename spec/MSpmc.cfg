SPECIFICATION Spec
INVARIANTS Once Pushed Stays Nothing
CHECK_DEADLOCK FALSE
