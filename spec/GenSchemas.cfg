INIT GenInit
NEXT GenNext
CONSTANTS
  Family <- EnvFamily
  Schemas <- TheSchemas
