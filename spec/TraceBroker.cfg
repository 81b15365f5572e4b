INIT TInit
NEXT TNext
CONSTRAINT Report
