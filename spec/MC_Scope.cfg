SPECIFICATION Spec
CONSTANTS MaxArgs = 4
          MaxBody = 1
INVARIANTS Binding Fresh GlobalsKept Reads Caller Ends
PROPERTIES LocalOnly
