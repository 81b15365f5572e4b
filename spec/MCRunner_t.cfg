CONSTANTS
  MaxOps = 3
  MaxOpts = 3
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Forwarded Planless Kept
