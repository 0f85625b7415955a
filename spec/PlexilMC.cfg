SPECIFICATION Spec
VIEW View
CONSTRAINT Within
INVARIANT Sound
CHECK_DEADLOCK FALSE
