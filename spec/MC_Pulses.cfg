SPECIFICATION Spec
CONSTANTS M = 40
          ND = 8
INVARIANTS FourierPair Autocorrelated EnergyOK Nyquist RootOK Even Decays
