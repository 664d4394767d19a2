SPECIFICATION Spec
CONSTANTS Setup = "counter" MaxPend = 9 MaxIn = 2
CONSTRAINT Small
VIEW View
INVARIANTS TypeOk PendingIsWant Kept Product
PROPERTIES Causes Encoded Stable ProductImage ProductRead Reports Rejected NotStuck
CHECK_DEADLOCK FALSE
