INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC14
  St0 <- St
