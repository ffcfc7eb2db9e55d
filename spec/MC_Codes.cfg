INIT Init
NEXT Next
CONSTANT MaxStr = 8
INVARIANTS RaceSound UPExact PFSound KraftUP CoverExact HuffmanOptimal CanonicalOK FanoPF TunstallOptimal ExchangeExact BigOK
