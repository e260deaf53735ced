INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC19
  St0 <- St
