CONSTANTS
  InitSt <- LinksInit
  Post <- LinksPost
INIT TInit
NEXT TNext
CONSTRAINT Report
