INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC03
  St0 <- St
