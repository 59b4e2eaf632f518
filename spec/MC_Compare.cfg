SPECIFICATION Spec
CONSTANTS Sizes = 4
INVARIANTS Total Antisymmetric Reflexive Transitive NullFirst ByTypeName
CHECK_DEADLOCK FALSE
