CONSTANTS
  Caps = {0, 1, 2}
  TopicList <- OneTopic
  Profile = "order"
  MaxSteps = 8
  MaxSubs = 2
  MaxMsgs = 4
  MaxCalls = 5
  Burst = FALSE
  Opened = TRUE
  Ghosts = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting
