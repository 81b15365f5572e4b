CONSTANTS
  InitSt <- GraphInit
  Post <- GraphPost
INIT TInit
NEXT TNext
CONSTRAINT Report
