SPECIFICATION MCSpec
CONSTANTS
  Focus = "ALL"
  Ms = {1, 2, 3}
  Rs = {1000, 2000}
  Ts = {1000, 3000, 5000}
  Delays = {0, 300, 1300}
  Statuses = {200, 404, 503}
  Dump = FALSE
INVARIANTS TypeOK C01_Bounded C02_Recovered C03_Status C04_Deadlines C05_OneSource DumpScripts
PROPERTIES EventuallyAnswered HistoryFinal
CHECK_DEADLOCK FALSE
