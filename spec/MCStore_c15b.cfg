CONSTANTS
  UIDs = {"a", "b", "c"}
  Versions = {"1"}
  OpKinds = {"bulk"}
  Kinds = {"d"}
  BulkMax = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT StoreSane
PROPERTIES AddExact DelExact LinkExact Halves
