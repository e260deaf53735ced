INIT TInit
NEXT TNext
CONSTANTS
  Judge <- JudgeC05
  St0 <- St
