INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC20
  St0 <- St
