INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC08
  St0 <- St
