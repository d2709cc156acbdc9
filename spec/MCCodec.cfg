SPECIFICATION Spec
INVARIANT Back
INVARIANT InUnit
INVARIANT Ends
INVARIANT Dyadic
INVARIANT Bytes16
CHECK_DEADLOCK FALSE
