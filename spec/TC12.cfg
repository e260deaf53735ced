INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC12
  St0 <- St
