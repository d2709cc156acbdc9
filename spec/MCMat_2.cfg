SPECIFICATION Spec
CONSTANTS Vals = {1, 2} MaxDim = 3 MaxSteps = 2 Gen = FALSE
INVARIANT Shape
INVARIANT RowColumn
INVARIANT Ones
INVARIANT Turned
INVARIANT Associative
VIEW View
CHECK_DEADLOCK FALSE
