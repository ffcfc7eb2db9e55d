SPECIFICATION Spec
CONSTANTS H = 8
          X = 10
          MaxM = 3
INVARIANTS Gaussian Chis Meet Symmetric Exchange Odds Softs
