CONSTANTS
  UIDs = {"a", "b", "c"}
  Versions = {"1", "2"}
  Handles = {}
  OpKinds = {"node", "link", "unlink"}
  Kinds = {"u"}
  Depths = {}
  Roots = {"a"}
  Base = {"a", "b", "c"}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS GraphsSane ViewsAgree
PROPERTIES NodesExact EdgesExact SubExact Independent
