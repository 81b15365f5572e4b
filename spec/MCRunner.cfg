CONSTANTS
  MaxOps = 3
  MaxOpts = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Forwarded Planless Kept
