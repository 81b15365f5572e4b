CONSTANTS
  InitSt <- PipeInit
  Post <- PipePost
INIT TInit
NEXT TNext
CONSTRAINT Report
