SPECIFICATION Spec
CONSTANTS MaxCalls = 2
          MaxHeap = 5
          MaxLen = 4
INVARIANTS WellFormed Frame Fresh Sequences0 Maps FailureValue
