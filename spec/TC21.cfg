INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC21
  St0 <- St
