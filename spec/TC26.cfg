INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC26
  St0 <- St
