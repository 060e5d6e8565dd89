INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  FactProps <- TheProps
  FactFold <- TheFold
  FactNames <- TheNames
  FactEncs <- TheEncs
