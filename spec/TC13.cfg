INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC13
  St0 <- St
