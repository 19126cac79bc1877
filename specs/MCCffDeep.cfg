CONSTANTS
  MaxG = 4
  CidSet = {1, 2, 3, 7}
  CodeSet = {0, 1, 2, 255}
  Nums <- N2
INIT Init
NEXT Next
INVARIANT CharsetRight
INVARIANT EncodingRight
INVARIANT FdRight
INVARIANT NumRight
INVARIANT TruncCs
INVARIANT TruncFd
INVARIANT EmitCid
INVARIANT EmitEnc
CHECK_DEADLOCK FALSE
