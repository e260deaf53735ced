INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC02
  St0 <- St
