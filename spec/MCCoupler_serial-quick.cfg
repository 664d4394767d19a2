SPECIFICATION Spec
CONSTANTS Setup = "serial" MaxPend = 1 MaxIn = 1
CONSTRAINT Small
VIEW View
INVARIANTS TypeOk PendingIsWant Kept Product
PROPERTIES Causes Encoded Stable ProductImage ProductRead Reports Rejected NotStuck
CHECK_DEADLOCK FALSE
