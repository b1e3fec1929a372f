SPECIFICATION Spec
CONSTANTS MaxM = 3
INVARIANTS GivenWins HeaderNext NoGuess Exact Viewed Rays Order Emit
CHECK_DEADLOCK FALSE
