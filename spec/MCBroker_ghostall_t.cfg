CONSTANTS
  Caps = {0, 1}
  TopicList <- OneTopic
  Profile = "all"
  MaxSteps = 6
  MaxSubs = 2
  MaxMsgs = 3
  MaxCalls = 4
  Burst = TRUE
  Opened = FALSE
  Ghosts = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting Once Faithful InOrder Kept
