SPECIFICATION Spec
VIEW View
PROPERTY Holds
CHECK_DEADLOCK FALSE
