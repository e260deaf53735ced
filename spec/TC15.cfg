INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC15
  St0 <- St
