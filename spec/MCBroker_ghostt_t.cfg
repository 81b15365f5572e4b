CONSTANTS
  Caps = {0, 1}
  TopicList <- OneTopic
  Profile = "capacity"
  MaxSteps = 8
  MaxSubs = 1
  MaxMsgs = 4
  MaxCalls = 4
  Burst = TRUE
  Opened = TRUE
  Ghosts = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting Once Faithful InOrder Kept
