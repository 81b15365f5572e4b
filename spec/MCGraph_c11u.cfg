CONSTANTS
  UIDs = {"a", "b", "c"}
  Versions = {"1"}
  Handles = {}
  OpKinds = {"link", "sub"}
  Kinds = {"u"}
  Depths = {0, 1, 2}
  Roots = {"a"}
  Base = {"a", "b", "c"}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS GraphsSane ViewsAgree
PROPERTIES NodesExact EdgesExact SubExact Independent
