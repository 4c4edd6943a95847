SPECIFICATION Spec
VIEW Ghost
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 3
  MaxReqs = 2
  MaxLives = 1
  Hold = FALSE
  Kinds = {"get", "head", "expect", "oldka"}
  Calls = {"wr", "whlen", "whch", "whopen", "wc1", "wc2", "ec", "close"}
  Emit = FALSE
INVARIANTS NoError DeliveredExactly LifeCycle Framing NothingElse KeepAliveAgrees FlushBeforeClose Refused Interim FreshStart
