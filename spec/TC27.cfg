INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC27
  St0 <- StS
