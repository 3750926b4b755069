SPECIFICATION Spec
CONSTANTS NK = 2 NV = 2 DbIds = {1, 2} Handles = {1, 2} Names = {"a", "b"} Types = {"S", "I"} MaxOps = 7
INVARIANTS TypeOK UnchangedIsSafe
PROPERTIES TypesStay ContentIsolated
VIEW View
CHECK_DEADLOCK FALSE
