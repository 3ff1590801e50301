SPECIFICATION Spec
CONSTANTS
  Nets <- DeepNets
  Domains <- DomainsDef
INVARIANTS ForwardSound BackwardSound ConstSound Ordered Exact ExactConst PointExact HybridTighter
CHECK_DEADLOCK FALSE
