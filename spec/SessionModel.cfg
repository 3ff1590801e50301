SPECIFICATION Spec
CONSTANTS
  Versions <- VersionsDef
  Steps = 1000000
VIEW View
INVARIANTS Refines Replied OneDomain Intact Follows ResetFresh
CHECK_DEADLOCK FALSE
