CONSTANTS
  Caps = {0, 1}
  TopicList <- OneTopic
  Profile = "sessions"
  MaxSteps = 6
  MaxSubs = 2
  MaxMsgs = 2
  MaxCalls = 4
  Burst = FALSE
  Opened = FALSE
  Ghosts = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting
