SPECIFICATION Spec
CONSTANTS
  Family = "graphs4"
  Schemas <- TheSchemas
INVARIANTS VerdictExact ErrorTrue ResolvedExact CacheSound
