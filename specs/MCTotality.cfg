SPECIFICATION Spec
CONSTANTS
  Many = 4
  Wide = 6
  K = 10
  PerByte = 3
  MaxLevel = 3
  Accessors = 3
  Kinds = {"sfnt", "gsub", "gpos", "cff", "name", "gdef", "kern", "cmap", "coverage", "classdef"}
INVARIANTS Bounded Legal Exact Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
