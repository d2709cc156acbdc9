SPECIFICATION Spec
CONSTANTS MaxSteps = 4 MaxLen = 5 Gen = FALSE
INVARIANT StreamIsMemory
INVARIANT ReadsBack
INVARIANT Complete
INVARIANT RoundTrip
VIEW View
CHECK_DEADLOCK FALSE
