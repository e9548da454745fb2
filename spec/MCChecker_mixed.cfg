SPECIFICATION Spec
CONSTANTS
  Family = "mixed"
  Schemas <- TheSchemas
INVARIANTS VerdictExact ErrorTrue ResolvedExact CacheSound
