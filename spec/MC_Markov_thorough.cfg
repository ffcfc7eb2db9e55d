SPECIFICATION Spec
CONSTANTS N = 4
          K = 4
INVARIANTS Walk Divides Absorbed Closed Partition ClassPeriod PeriodBound LevelFormula Regular AbsTransient RingForm
