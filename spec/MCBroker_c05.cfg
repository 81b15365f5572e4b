CONSTANTS
  Caps = {0, 1}
  TopicList <- OneTopic
  Profile = "unsub"
  MaxSteps = 7
  MaxSubs = 2
  MaxMsgs = 2
  MaxCalls = 4
  Burst = FALSE
  Opened = TRUE
  Ghosts = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting
