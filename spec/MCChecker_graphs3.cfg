SPECIFICATION Spec
CONSTANTS
  Family = "graphs3"
  Schemas <- TheSchemas
INVARIANTS VerdictExact ErrorTrue ResolvedExact CacheSound
