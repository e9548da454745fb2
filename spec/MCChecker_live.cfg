SPECIFICATION Spec
CONSTANTS
  Family = "mixed"
  Schemas <- TheSchemas
PROPERTIES Terminates
