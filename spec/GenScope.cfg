INIT GenInit
NEXT GenNext
CONSTANTS
  Family <- EnvFamily
  Fresh = FALSE
