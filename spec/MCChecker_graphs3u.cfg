SPECIFICATION Spec
CONSTANTS
  Family = "graphs3u"
  Schemas <- TheSchemas
INVARIANTS VerdictExact ErrorTrue ResolvedExact CacheSound
