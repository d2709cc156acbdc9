SPECIFICATION Spec
CONSTANTS MaxMods = 8 MaxOps = 9 Gen = TRUE WithParams = TRUE
 OpSet = {"start","stop","finish","done","sync","chain","process","period"}
INVARIANT Post
INVARIANT Emit
CHECK_DEADLOCK FALSE
