SPECIFICATION Spec
CONSTANTS MaxMods = 6 MaxOps = 2 Gen = FALSE WithParams = TRUE
 OpSet = {"start","stop","finish","done","sync","chain","process","period"}
INVARIANT Post
VIEW View
CHECK_DEADLOCK FALSE
