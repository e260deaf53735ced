INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC01
  St0 <- St
