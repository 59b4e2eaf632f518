SPECIFICATION Spec
CONSTANTS Sizes = 5
INVARIANTS Total Antisymmetric Reflexive Transitive NullFirst ByTypeName SortLaw
CHECK_DEADLOCK FALSE
