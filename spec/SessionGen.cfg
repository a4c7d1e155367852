SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Legacy = FALSE
  Ops = {"query", "exec", "next", "one", "collect", "finish", "columns", "cleanup"}
  Shapes = {"ok","err","rs0","rs1","rs2","rsbg","rsgb","rserr0","rserr1","ok+rs1","rs1+ok","rs1+err","rs1+rs1","junk","infile"}
  Secondary = {"ok", "err", "rs1"}
  PShapes = {}
  Faults = {}
  Gen = TRUE
INVARIANTS TypeOK Pairing InSync Trusted Closing AliveOpen Progress
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
