SPECIFICATION Spec
CONSTANT Wide = 1
INVARIANT Tables
INVARIANT Windows
INVARIANT Kernels
CHECK_DEADLOCK FALSE
