SPECIFICATION Spec
CONSTANTS
  Family = "local"
  Schemas <- TheSchemas
INVARIANTS VerdictExact ErrorTrue ResolvedExact CacheSound
