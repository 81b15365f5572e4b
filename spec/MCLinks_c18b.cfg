\* C18 quick: three UIDs, one version, deletes
CONSTANTS
  UIDs = {"a", "b", "c"}
  Versions = {"1"}
  OpKinds = {"put", "del", "clear"}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OnePerPair ViewsAgree
PROPERTIES PutSticks DelExact
