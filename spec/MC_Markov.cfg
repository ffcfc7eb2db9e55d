SPECIFICATION Spec
CONSTANTS N = 3
          K = 7
INVARIANTS Walk Divides Absorbed Closed Partition ClassPeriod PeriodBound LevelFormula Regular AbsTransient RingForm
