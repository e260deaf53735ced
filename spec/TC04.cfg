INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC04
  St0 <- St
