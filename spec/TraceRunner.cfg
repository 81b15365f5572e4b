CONSTANTS
  InitSt <- RunnerInit
  Post <- RunnerPost
INIT TInit
NEXT TNext
CONSTRAINT Report
