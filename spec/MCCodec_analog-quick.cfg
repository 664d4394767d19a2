SPECIFICATION Spec
CONSTANTS Topic = "analog" Step = 32
INVARIANTS Monotone Rated Mirrored Told Temps Ohms Volts RoundTrip Nearest Saturated Off Open
CHECK_DEADLOCK FALSE
