INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC10
  St0 <- St
