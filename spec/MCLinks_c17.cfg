\* C17 quick: two UIDs, two versions of every link, single operations
CONSTANTS
  UIDs = {"a", "b"}
  Versions = {"1", "2"}
  OpKinds = {"put", "del", "clear", "get"}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OnePerPair ViewsAgree
PROPERTIES PutSticks DelExact
