\* C18 quick: two UIDs, one version, bulk operations, deletes
CONSTANTS
  UIDs = {"a", "b"}
  Versions = {"1", "2"}
  OpKinds = {"del", "clear", "bulk"}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OnePerPair ViewsAgree
PROPERTIES DelExact BulkIsSeq
