INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC23
  St0 <- St
