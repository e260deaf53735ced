INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC07
  St0 <- St
