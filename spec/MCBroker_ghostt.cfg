CONSTANTS
  Caps = {0, 1}
  TopicList <- OneTopic
  Profile = "capacity"
  MaxSteps = 7
  MaxSubs = 1
  MaxMsgs = 3
  MaxCalls = 4
  Burst = TRUE
  Opened = TRUE
  Ghosts = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting Once Faithful InOrder Kept
