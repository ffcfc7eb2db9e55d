SPECIFICATION Spec
CONSTANTS R = 6
          MaxL = 4
INVARIANTS OneCell Valid OwnLevel OnThreshold Nearest Midpoints Zero Mse MseGeneral
PROPERTIES Monotone
