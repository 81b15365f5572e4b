CONSTANTS
  Mode = "ingest"
  MaxOps = 2
  MaxScript = 1
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Determined
