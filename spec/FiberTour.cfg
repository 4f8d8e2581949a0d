SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
