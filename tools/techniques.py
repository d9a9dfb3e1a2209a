t('U01', 'symbolic execution of LLVM IR, bit-vector terms, z3', 'Exact for all contents; lengths within the stated bound.')
t('U02', 'symbolic execution of LLVM IR, bit-vector terms, z3', 'Exact for all values; no length bound applies.')
t('N01', 'symbolic execution of LLVM IR + integer polynomial / LIA decision', 'All 256-bit operands, both backends.')
t('N02', 'symbolic execution of LLVM IR + integer polynomial / LIA decision', 'All operands; limb counts within the stated bound.')
t('N03', 'symbolic execution of LLVM IR + LIA/bit-vector decision', 'All operands below the modulus, all four moduli, both backends.')
t('N04', 'symbolic execution of LLVM IR + integer polynomial / LIA decision', 'All operands below the modulus, all four moduli, both backends.')
t('N05', 'symbolic execution of LLVM IR with products as exponent arithmetic, bit-vector queries (z3)', 'Every base; power loop decided for every exponent of the listed digit counts; inverse and 0/1 cases complete.')
for i in ('M01', 'M02', 'M03', 'M04'):
    t(i, 'symbolic execution of LLVM IR over call sequences, block cipher / GHASH as uninterpreted functions, term normalisation + z3', 'Every key, IV and content; every call sequence within the stated lengths.')
t('M05', 'symbolic execution of LLVM IR over call sequences, primitives as uninterpreted functions, term normalisation + z3', 'Every prior history of the listed shapes with arbitrary contents.')
for i in ('H02', 'H03'):
    t(i, 'symbolic execution of LLVM IR over call sequences, compression function uninterpreted, term normalisation + z3', 'Every message (and key) content; every split within the stated lengths.')
t('G02', 'symbolic execution of LLVM IR over call sequences, GHASH multiplication uninterpreted, term normalisation + z3', 'Every key and content; every split within the stated lengths.')
for i in ('A01', 'A02'):
    t(i, 'symbolic execution of LLVM IR, bit-vector terms, z3', 'Every buffer content / every value; lengths within the stated bound.')
t('S04', 'symbolic execution of LLVM IR, bit-vector terms, z3', 'Every field value and every buffer content; lengths and length forms within the stated bound.')
t('R01', 'symbolic execution of LLVM IR, source outputs and hardware success flags symbolic, z3', 'Every success/failure pattern and every source output; request lengths and retries within the stated bound.')
for i in ('C01', 'C02'):
    t(i, 'symbolic execution of LLVM IR, canonical GF(2) normal forms of every output bit (table lookups as ANF), z3 for path conditions', 'Every key and every block; block counts within the stated bound.')
t('G01', 'symbolic execution of LLVM IR, canonical GF(2) forms (bilinear in H and X, states of earlier blocks as cut points)', 'Every H, state and block; block counts within the stated bound.')
t('H01', 'symbolic execution of LLVM IR, SAT sweeping of the compression rounds (local z3 queries, linear message schedule over GF(2))', 'Every chaining value, bit count and content; block counts within the stated bound, every tail length.')
t('E01', 'symbolic execution of LLVM IR over a finite-field polynomial domain; polynomial-ideal normal forms per path', 'Every point pair and every representative (all Z); decided as polynomial identities over GF(p).')
t('P02', 'symbolic execution of LLVM IR over a finite-field polynomial domain; polynomial-ideal normal forms per path', 'Every point pair and every representative (all Z), both groups; decided as polynomial identities over GF(p).')
t('P01', 'symbolic execution of LLVM IR over a finite-field polynomial domain; polynomial identities over GF(p)', 'Every operand and every alias pattern; decided as polynomial identities over GF(p).')
t('P06', 'symbolic execution of LLVM IR over a finite-field polynomial domain (line values) and exact exponent arithmetic (Miller loop, final exponent, power), z3 for exponent relations', 'Every pair of points and every base; power for every exponent of each listed length.')
for i in ('E03', 'P03'):
    t(i, 'symbolic execution of LLVM IR: input buffer as one bitvector, finite-field polynomial domain for coordinates, z3 for path conditions; square roots by exponent arithmetic on residue classes', 'Every buffer of each length and every point; square root by its contract, decided separately for every field element.')
t('E02', 'symbolic execution of LLVM IR; point operations by contract as integer multiples, window invariant of the recoded scalar discharged per step by z3', 'Every scalar for each listed leading-bit position (thorough: all positions); group law taken from E01/P02.')
t('K01', 'symbolic execution of LLVM IR; group elements as discrete logarithms (polynomials over GF(n)), comparisons tied to bitvector integers, z3', 'Every private key value, generator output and coordinate pair; group and field operations by contract.')
for i in ('S01', 'S02', 'S03'):
    t(i, 'symbolic execution of LLVM IR; group elements as discrete logarithms (polynomials over GF(n)), hash uninterpreted over its transcript, z3 plus polynomial-ideal reasoning per path', 'Every key, digest, nonce and signature; message and id lengths listed; group and field operations by contract.')
t('P04', 'symbolic execution of LLVM IR; elements of G1, G2, GT as discrete logarithms (polynomials over GF(n)), pairing bilinear, hash uninterpreted over its transcript, z3', 'Every key, nonce and signature buffer of the listed lengths, message and id contents; pairing, group and field operations by contract.')
t('P05', 'symbolic execution of LLVM IR; group elements as discrete logarithms (polynomials over GF(n)), hash uninterpreted over its transcript, z3', 'Every key value, generator output, hash value; listed input lengths; group and field operations by contract.')
t('N06', 'symbolic execution of LLVM IR; residues as linear forms over the input bytes modulo P (canonical), z3 for path conditions and chunk identities', 'Every content; byte-string lengths listed; modular addition and Montgomery multiplication by contract (N03, N04).')
