CONSTANTS K = 1 N = 2 Deg = 2 L = 4
INIT Init
NEXT Next
INVARIANTS Transfer RunRight SSRight RealisesRight Chunked Driven TailBite
