CONSTANTS
  UIDs = {"a", "b", "c"}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT OnePerUID
PROPERTIES AddSticks DelExact
