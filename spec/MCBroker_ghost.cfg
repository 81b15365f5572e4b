CONSTANTS
  Caps = {0, 1}
  TopicList <- TwoTopics
  Profile = "messages"
  MaxSteps = 7
  MaxSubs = 2
  MaxMsgs = 3
  MaxCalls = 3
  Burst = FALSE
  Opened = TRUE
  Ghosts = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT Consistent Room Outside Digesting Once Faithful InOrder Kept
