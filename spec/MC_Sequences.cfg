SPECIFICATION Spec
CONSTANTS N = 5
          LogL = 5
          ZcL = 21
INVARIANTS Recurrence Primitive2 OrderOK WalshOK BarkerOK ZcOK ZcAtOK ZcCoprime RunForm
