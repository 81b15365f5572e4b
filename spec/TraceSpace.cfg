CONSTANTS
  InitSt <- SpaceInit
  Post <- SpacePost
INIT TInit
NEXT TNext
CONSTRAINT Report
