CONSTANTS
  UIDs = {"a", "b"}
  Versions = {"1", "2"}
  OpKinds = {"bulk"}
  Kinds = {"u"}
  BulkMax = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT StoreSane
PROPERTIES AddExact DelExact LinkExact Halves
