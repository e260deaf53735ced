INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC25
  St0 <- St
