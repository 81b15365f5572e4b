CONSTANTS
  Mode = "digest"
  MaxOps = 2
  MaxScript = 3
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES NoMore
