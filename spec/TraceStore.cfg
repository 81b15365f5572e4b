CONSTANTS
  InitSt <- StoreInit
  Post <- StorePost
INIT TInit
NEXT TNext
CONSTRAINT Report
