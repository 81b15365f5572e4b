CONSTANTS
  UIDs = {"a", "b", "c", "d"}
  Versions = {"1"}
  Handles = {}
  OpKinds = {"link", "sub"}
  Kinds = {"u"}
  Depths = {0, 1, 2, 3}
  Roots = {"a", "b", "c", "d"}
  Base = {"a", "b", "c", "d"}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS GraphsSane ViewsAgree
PROPERTIES NodesExact EdgesExact SubExact Independent
