SPECIFICATION Spec
CONSTANTS
  Many = 8
  Wide = 12
  K = 40
  PerByte = 3
  MaxLevel = 5
  Accessors = 6
  Kinds = {"sfnt", "gsub", "gpos", "cff", "name", "gdef", "kern", "cmap", "coverage", "classdef"}
INVARIANTS Bounded Legal Exact Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
