INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC11
  St0 <- St
