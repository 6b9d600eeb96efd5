CONSTANTS DEPTH = 12
 MAXOBJ = 9
 LTOP = 4
 SIM = TRUE
 Ops <- AllOps
 Kinds <- AllKinds
 Leads <- SomeLeads
SPECIFICATION Spec
INVARIANT WellFormed
PROPERTIES Frame Stays SameSize
CHECK_DEADLOCK FALSE
