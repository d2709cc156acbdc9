SPECIFICATION Spec
CONSTANT Wide = 8
INVARIANT Primitive
INVARIANT OutOfPlace
INVARIANT InPlace
INVARIANT Undone
INVARIANT BitReversal
INVARIANT Circular
INVARIANT Tables
CHECK_DEADLOCK FALSE
