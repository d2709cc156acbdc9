SPECIFICATION TSpec
CONSTRAINT Reached
POSTCONDITION Post
CHECK_DEADLOCK FALSE
