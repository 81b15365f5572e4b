CONSTANTS
  Caps = {0, 1, 2}
  TopicList <- OneTopic
  Profile = "order"
  MaxSteps = 6
  MaxSubs = 2
  MaxMsgs = 4
  MaxCalls = 4
  Burst = TRUE
  Opened = TRUE
  Ghosts = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting Once Faithful InOrder Kept
