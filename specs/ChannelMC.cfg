SPECIFICATION Spec
CONSTANTS
  MaxSent = 3
  MaxSteps = 7
  Kinds = {"fd", "sock", "file", "fifo", "dpipe", "xsim", "stdio", "lo", "zmq"}
INVARIANTS Ordered Complete NoStale Status
CHECK_DEADLOCK FALSE
