CONSTANTS
  Caps = {0, 1}
  TopicList <- OneTopic
  Profile = "digest"
  MaxSteps = 6
  MaxSubs = 2
  MaxMsgs = 2
  MaxCalls = 3
  Burst = FALSE
  Opened = TRUE
  Ghosts = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting
