SPECIFICATION Spec
CONSTANTS MaxMods = 4 MaxOps = 3 Gen = FALSE WithParams = FALSE
 OpSet = {"start","stop","finish","done","sync","chain","process","period"}
INVARIANT Post
VIEW View
CHECK_DEADLOCK FALSE
