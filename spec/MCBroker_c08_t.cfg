CONSTANTS
  Caps = {0, 1}
  TopicList <- OneTopic
  Profile = "digest"
  MaxSteps = 7
  MaxSubs = 2
  MaxMsgs = 3
  MaxCalls = 3
  Burst = FALSE
  Opened = TRUE
  Ghosts = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting
