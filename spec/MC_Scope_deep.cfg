SPECIFICATION Spec
CONSTANTS MaxArgs = 5
          MaxBody = 3
INVARIANTS Binding Fresh GlobalsKept Reads Caller Ends
PROPERTIES LocalOnly
