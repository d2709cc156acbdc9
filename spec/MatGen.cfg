SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2, 3, 7} MaxDim = 4 MaxSteps = 5 Gen = TRUE
INVARIANT RowColumn
INVARIANT Emit
CHECK_DEADLOCK FALSE
