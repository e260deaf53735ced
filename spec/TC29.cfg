INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC29
  St0 <- St
