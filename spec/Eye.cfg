SPECIFICATION Spec
CONSTANTS Ages = {10, 25, 40, 55, 70, 85} Pigs = {16, 56, 106, 142, 160} Evs = {90, 105, 115, 125, 132, 140, 150} Ads = {80, 95, 105, 120, 130}
INVARIANTS PupilSize Shares Spreads Window Responds Emit
PROPERTIES Shrinks BrighterRetina Dulls
CHECK_DEADLOCK FALSE
