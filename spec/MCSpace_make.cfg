CONSTANTS
  Profile = "make"
  MaxOps = 4
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Whole OneValue
PROPERTIES Private Copied Local RoundTrip Harmless
