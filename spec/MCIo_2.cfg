SPECIFICATION Spec
CONSTANTS MaxSteps = 5 MaxLen = 6 Gen = FALSE
INVARIANT StreamIsMemory
INVARIANT ReadsBack
INVARIANT Complete
INVARIANT RoundTrip
VIEW View
CHECK_DEADLOCK FALSE
