INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC17
  St0 <- St
