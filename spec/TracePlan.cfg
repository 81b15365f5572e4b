CONSTANTS
  InitSt <- PlanInit
  Post <- PlanPost
INIT TInit
NEXT TNext
CONSTRAINT Report
