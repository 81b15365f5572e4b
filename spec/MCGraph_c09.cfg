CONSTANTS
  UIDs = {"a", "b"}
  Versions = {"1"}
  Handles = {"h1", "h2"}
  OpKinds = {"new", "node", "linkonly"}
  Kinds = {"d"}
  Depths = {}
  Roots = {"a"}
  Base = {}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS GraphsSane ViewsAgree
PROPERTIES NodesExact EdgesExact SubExact Independent
