INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC16
  St0 <- St
