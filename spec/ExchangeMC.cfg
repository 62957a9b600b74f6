SPECIFICATION MCSpec
CONSTANTS
  Focus = "ALL"
  Methods = {"GET", "HEAD", "POST", "PUT"}
  Kinds = {"proxy", "about", "nomatch"}
  Framings = {"none", "cl", "chunked", "clshort"}
  Sizes = {0, 10, 11}
  Aes = {"none", "gzip", "refuse", "star"}
  IdModes = {"none", "one", "two"}
  ReqHdrs = {"multi"}
  Statuses = {200, 204, 404, 503}
  Codings = {"none", "gzip", "br", "magic"}
  AnsSizes = {0, 5}
  AnsHdrs = {"never"}
  Faults = {"none", "refused", "mute"}
  MaxLimit = 10
  Attempts = 2
  MaxExchanges = 1
  TlsModes = {FALSE}
  Dump = FALSE
INVARIANTS I13a I13b I14a I14b I16 I17 Answerable Finishes Passes Fails DumpCases
CHECK_DEADLOCK FALSE
