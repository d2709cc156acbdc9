SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3} MaxDim = 2 MaxSteps = 2 Gen = FALSE
INVARIANT Shape
INVARIANT RowColumn
INVARIANT Ones
INVARIANT Turned
INVARIANT Associative
VIEW View
CHECK_DEADLOCK FALSE
