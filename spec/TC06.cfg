INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC06
  St0 <- St
