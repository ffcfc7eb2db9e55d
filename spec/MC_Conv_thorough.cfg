CONSTANTS K = 2 N = 2 Deg = 1 L = 3
INIT Init
NEXT Next
INVARIANTS Transfer RunRight SSRight RealisesRight Chunked Driven TailBite
