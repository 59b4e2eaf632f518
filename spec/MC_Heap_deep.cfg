SPECIFICATION Spec
CONSTANTS MaxCalls = 3
          MaxHeap = 5
          MaxLen = 4
INVARIANTS WellFormed Frame Fresh Sequences0 Maps FailureValue
