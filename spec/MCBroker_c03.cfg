CONSTANTS
  Caps = {0, 1}
  TopicList <- OneTopic
  Profile = "capacity"
  MaxSteps = 7
  MaxSubs = 1
  MaxMsgs = 3
  MaxCalls = 4
  Burst = FALSE
  Opened = TRUE
  Ghosts = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting
