INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC28
  St0 <- St
