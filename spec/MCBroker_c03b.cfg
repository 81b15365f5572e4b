CONSTANTS
  Caps = {0, 1, 2}
  TopicList <- OneTopic
  Profile = "cancelled"
  MaxSteps = 6
  MaxSubs = 1
  MaxMsgs = 2
  MaxCalls = 3
  Burst = FALSE
  Opened = TRUE
  Ghosts = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting
