INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC22
  St0 <- St
