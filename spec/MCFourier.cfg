SPECIFICATION Spec
CONSTANT Wide = 4
INVARIANT Primitive
INVARIANT OutOfPlace
INVARIANT InPlace
INVARIANT Undone
INVARIANT BitReversal
INVARIANT Circular
INVARIANT Tables
CHECK_DEADLOCK FALSE
