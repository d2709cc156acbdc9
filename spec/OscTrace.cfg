SPECIFICATION Spec
CONSTRAINT Reached
POSTCONDITION Post
CHECK_DEADLOCK FALSE
