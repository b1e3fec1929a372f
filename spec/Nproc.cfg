SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS LastWins Explicit NoOps Idempotent Emit
CHECK_DEADLOCK FALSE
