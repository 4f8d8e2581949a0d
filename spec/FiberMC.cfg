SPECIFICATION Spec
VIEW MCView
INVARIANTS NothingBad Exclusion OwnerSees FreeTaken Timely Waiters Woken Rounds Conserved Flow OneOutcome Delivered Private
PROPERTY Once
CHECK_DEADLOCK FALSE
