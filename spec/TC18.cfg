INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC18
  St0 <- St
