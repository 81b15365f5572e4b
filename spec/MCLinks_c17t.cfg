\* C17 thorough: three UIDs
CONSTANTS
  UIDs = {"a", "b", "c"}
  Versions = {"1"}
  OpKinds = {"put", "del", "clear", "get"}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OnePerPair ViewsAgree
PROPERTIES PutSticks DelExact
