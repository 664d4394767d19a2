SPECIFICATION Spec
CONSTANTS Topic = "analog" Step = 1
INVARIANTS Monotone Rated Mirrored Told Temps Ohms Volts RoundTrip Nearest Saturated Off Open
CHECK_DEADLOCK FALSE
