INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC24
  St0 <- StO
