INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC09
  St0 <- St
