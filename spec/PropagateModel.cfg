SPECIFICATION Spec
CONSTANTS
  Nets <- SmallNets
  Domains <- DomainsDef
INVARIANTS ForwardSound BackwardSound ConstSound Ordered Exact ExactConst PointExact HybridTighter
CHECK_DEADLOCK FALSE
