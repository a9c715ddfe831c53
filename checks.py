"""Which harness programs decide which property, and what they enumerate."""
import os
BASE = ['-std=gnu++20', '-w', '-g1', '-pipe']
EXC = ['-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_REMOVE_NODISCARD', '-DSTRICT_QUAD_PRECISION']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,vptr,float-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=undefined']
LIBS = ['-lquadmath']

def san(*extra, opt='-O1'):
    return {'args': BASE + [opt] + EXC + SAN + list(extra), 'libs': LIBS}

def plain(*extra, opt='-O1', exc=EXC):
    return {'args': BASE + [opt] + list(exc) + list(extra), 'libs': LIBS}

# Extreme (always rejected) index values are combined by wrapping arithmetic before they are rejected:
# not observable, so these programs do not ask UBSan about signed overflow.
NOSIO = '-fno-sanitize=signed-integer-overflow'

COMMON_ASSUMPTIONS = [
    'single-threaded use: the library has no internal concurrency, so a history is a sequence of calls',
    'g++ 13 on x86-64, gnu++20; value domains and sizes are those stated under bounds',
]
TECHNIQUE = 'explicit-state model checking of the real code: exhaustive enumeration of histories/inputs up to stated bounds, every step compared with a reference model'
NOTE = ('Every execution inside the stated bounds is run on the real library (built from /repo, with ASan and UBSan unless stated) and compared in full with an '
        'independent reference model; nothing is sampled. Trusts the compiler, the sanitizers and the reference model; says nothing outside the bounds.')
CHECKS = {}

# Most quick runs are dominated by compilation; the long ones of the thorough tier are not.
def OQ(tier): return '-O0' if tier == 'quick' else '-O1'

def check(pid, harness, rule, bounds, level='model_checking', **kw):
    CHECKS[pid] = dict(harness=harness, rule=rule, bounds=bounds, level=level, **kw)

check('C01', lambda tier: [
        ('c01.cpp', san('-DC01_TYPES=int', '-DC01_DEEP'), 'int'),
        ('c01.cpp', san('-DC01_TYPES=double'), 'double'),
        ('c01.cpp', san('-DC01_TYPES=bool,long'), 'bool-long'),
        ('c01.cpp', san('-DC01_TYPES=unsigned,float'), 'unsigned-float'),
        ('c01.cpp', san('-DC01_TYPES=long double,float128'), 'wide'),
    ] ,
    rule='Every operation sequence of the stated depth over two live dynamic 1D arrays is executed on the real '
         'library (ASan+UBSan, allocations counted) and on std::vector; every state is compared completely.',
    bounds={'depth': 'all sequences of length <=2 of the full alphabet (~150 operations, 9 initial sizes, 8 element types, 2 alignments); '
                     'length 3 (quick: reduced alphabet; thorough: full) and 4 (thorough, reduced) for int',
            'sizes': '0..7 plus single edits on sizes up to 1025'})

check('C02', lambda tier: [
        ('c02.cpp', san('-DC02_TYPES=int', '-DC02_DEEP'), 'int'),
        ('c02.cpp', san('-DC02_TYPES=double'), 'double'),
        ('c02.cpp', san('-DC02_TYPES=bool'), 'bool'),
        ('c02.cpp', san('-DC02_TYPES=float'), 'float'),
        ('c02.cpp', san('-DC02_TYPES=long'), 'long'),
        ('c02.cpp', san('-DC02_TYPES=float128'), 'quad'),
    ] + ([('c02.cpp', san('-DC02_TYPES=unsigned'), 'unsigned'), ('c02.cpp', san('-DC02_TYPES=long double'), 'ldouble')] if tier == 'thorough' else []),
    rule='Every operation sequence of the stated depth over two live dynamic 2D arrays is executed on the real '
         'library (ASan+UBSan, allocations counted) and on a plain matrix; every state (shape, every element through '
         'each accessor, storage) is compared completely.',
    bounds={'depth': 'all sequences of length <=2 of the full alphabet (~230 operations, 11 initial pairs of shapes, 2 alignments); length 3 (reduced alphabet; thorough: full) and 4 (thorough, reduced) for int',
            'shapes': '0..4 x 0..4, plus single edits on shapes up to 66x67'})

check('C05', lambda tier: [('c05.cpp', san('-DC05_PART=%d' % i, opt=OQ(tier)), str(i)) for i in range(5)],
    rule='Every chain of 1D slice selections (all kinds, parameters beyond both ends and extreme magnitudes) is built on the real library '
         'and compared with index arithmetic: accept/reject, size, every element by every accessor, element addresses, and every kind of write '
         'followed by a complete comparison of the underlying array.',
    bounds={'depth': 'depth 1 full domain (sizes 0..6), depth 2 full x mid (0..4), depth 3 mid x mid x small (0..4), small^3 (5..10)',
            'roots': 'dynamic (aligned/unaligned; int, double, bool), fixed, expression, 1D views/rows/columns/diagonals of 2D arrays, attached buffers'})

check('C06', lambda tier: [('c06.cpp', san('-DC06_PART=%d' % i, opt=OQ(tier)), str(i)) for i in (0, 2, 3, 4, 6, 7)]
    + [('c06.cpp', san('-DC06_PART=1', '-DC06_NEXT=%d' % k, opt=OQ(tier)), 'deep%d' % k) for k in (1, 2, 8, 16)]
    + ([('c06.cpp', san('-DC06_PART=5', '-DC06_NEXT=%d' % k, opt=OQ(tier)), 'expr%d' % k) for k in (1, 2, 8, 16)] if tier == 'thorough' else []),
    rule='Every row, column, diagonal, block, row-set, column-set, general slice, flattening and reshaping view of a 2D object, and every such selection of '
         'such a selection, is built on the real library and compared with index arithmetic: accept/reject, shape, every element by every accessor, '
         'element addresses, and every kind of write followed by a complete comparison of the underlying array.',
    bounds={'depth': 'depth 1 on shapes up to 4x4 (parameters beyond both ends and extreme indices), depth 2 on shapes up to 2x3/3x2 (thorough: 3x3, 3x4, and expressions)',
            'roots': 'dynamic (aligned/unaligned; int, double, bool), fixed, expressions, attached buffers, reshaped 1D arrays'})

check('C03', lambda tier: [('c03.cpp', san('-DC03_DIM=%d' % d, '-DC03_T=' + t, NOSIO), '%s%dD' % (t.replace(' ', ''), d))
                           for d in (1, 2) for t in (('int', 'bool', 'float128') if tier == 'thorough' else ('int', 'float128' if d == 1 else 'bool'))],
    rule='Every mutating operation with every argument of a domain reaching outside the valid range is executed once without a fault and once with the k-th '
         'allocation failing, for every k that is reached, alone and in every chain of two such steps; after every failure all operands must equal the model before '
         'the call, remain usable, and the number of live blocks must return to its start.',
    bounds={'faults': 'every single allocation failure per call (k until no further allocation is made), pairs of calls each with its own fault',
            'objects': 'two dynamic arrays of sizes 0..4 / shapes 0x0..3x3 plus one of the other rank; int, bool, float128; aligned and unaligned'})

def c04(tier):
    parts = [('0', []), ('1', []), ('2', ['-DC04_HALF=1']), ('2', ['-DC04_HALF=2']), ('3', []), ('4', []), ('5', [])] + ([(str(i), []) for i in (6, 7, 8)] if tier == 'thorough' else [])
    r = [('c04.cpp', san('-DC04_PART=' + p, NOSIO, *x, opt=OQ(tier)), p + ''.join(x)[-1:]) for p, x in parts]
    return r + [('c04.cpp', san('-DC04_PART=' + p, NOSIO, '-DSTRICT_DEBUG_OFF', *x, opt=OQ(tier)), 'release' + p + ''.join(x)[-1:]) for p, x in parts if tier == 'thorough' or p in '03']
check('C04', c04,
    rule='Every index value of a domain that reaches beyond both ends, to +-2^31, +-2^32 and to the extremes of the index type, in every index form (long, int, StrictLong, StrictInt, '
         'ImplicitInt, last, last-relative on either side), goes through every accessor (const and not, at, subscript, call, unchecked when in range) of every kind of object; '
         'accept/reject, value, address and the effect of a write are compared with a plain model; with debug checks off the same is done for at().',
    bounds={'objects': 'dynamic, fixed, attached arrays, slices of every kind, rows, columns, diagonals, views, expressions, structural expressions; sizes 0..5, shapes up to 3x3',
            'configurations': 'debug and release (STRICT_DEBUG_OFF), exceptions; assertion mode is covered by C19'})

def c07(tier):
    q = [('int', 1, 0), ('int', 2, 0), ('int', 1, 1), ('int', 2, 1), ('int', 1, 2), ('double', 2, 1), ('double', 1, 4), ('double', 1, 2), ('bool', 1, 0), ('bool', 2, 0), ('bool', 1, 2), ('int', 1, 3), ('double', 1, 3), ('int', 2, 3),
         ('int', 1, 5), ('long', 1, 6), ('unsigned long', 1, 6), ('float128', 1, 6)]
    if tier == 'thorough':
        q = [(t, d, g) for t in ('int', 'double', 'bool', 'long', 'unsigned', 'unsigned long', 'float', 'long double', 'float128') for d in (1, 2) for g in range(5)] + [('int', 1, 5)]
    return [('c07.cpp', san('-DC07_T=' + t, '-DC07_DIM=%d' % d, '-DC07_G=%d' % g, opt=OQ(tier)), '%s%dD%d' % (t.replace(' ', ''), d, g)) for t, d, g in q]
check('C07', c07,
    rule='Every unary, binary, scalar-left, scalar-right, user-supplied, cast and compound operation, over every kind of operand on either side, and every pair of nested binary operations, is '
         'evaluated on the real library at every pair (triple) of a value domain including extremes, infinities and NaN, read in every way (element, at, iterator, copy, construction, assignment, '
         'slice, row, column) and compared bit for bit with the built-in operation; operand change, later change of an operand, shape mismatch and undefined elements are all explored.',
    bounds={'values': '2-15 values per type (all pairs; triples for nesting); casts between all 81 pairs of types on up to 700 boundary values', 'operands': '11 kinds per rank; sizes 0,1,2,6,all pairs; shapes 0x0..3x2 and n x 3', 'nesting': 'depth 2, all ordered pairs of operations (thorough: all nine types, both ranks)'})

def c08(tier):
    r = [('c08m.cpp', plain('-DC08_T=' + t, '-DC08_PART=%d' % p, '-I/usr/include/eigen3', opt='-O0'), 'm%s%d' % (t, p))
         for t, q in (('double', range(7)), ('int', range(7)), ('bool', range(7)), ('__float128', (0, 1)), ('float', (0, 1)), ('unsigned', (0, 1))) for p in q]
    S = lambda part, lo, hi: ('c08.cpp', san('-DC08_PART=%d' % part, '-DC08_LO=%d' % lo, '-DC08_HI=%d' % hi, opt=OQ(tier)), 'p%d.%d' % (part, lo))
    r.append(S(0, 0, 99))
    if tier == 'quick':
        r += [S(p, lo, lo + 4) for p in (1, 2) for lo in range(0, 16, 4)] + [S(p, 0, 99) for p in (3, 4)]
    else:
        r += [S(p, lo, lo + 4) for p in (5, 6) for lo in range(0, 32, 4)] + [S(p, lo, lo + 2) for p in (7, 8) for lo in range(0, 16, 2)]
    return r
check('C08', c08,
    rule='(a) Every operation that builds a lazy object is asked for, in every operand position, with every value category (named, const, temporary, const temporary) of every kind of operand, and must be '
         'accepted or refused exactly as the lifetime rule says. (b) Every stage (60 kinds of slices, views, expressions) over every representative temporary is built inside a function from temporaries and '
         'from named intermediates, returned, the dead stack and freed heap are overwritten, and the object, a copy that outlives it and a moved-from source are read in full and compared with eager evaluation '
         '(ASan with stack-use-after-return detection).',
    bounds={'programs': 'about 190 operations x 12 operand kinds x 2-4 value categories x 3 element types (and owners of 3 more) (every combination compiled)',
            'nesting': 'quick: 29 representative stages x all 60; thorough: all pairs, and all triples of representatives'})

def c09(tier):
    K = lambda t, p, a, b: ('c09.cpp', san('-DC09_T=' + t, '-DC09_PART=%d' % p, '-DC09_KLO=%d' % a, '-DC09_KHI=%d' % b, opt=OQ(tier)), '%s.p%d.%d' % (t.replace(' ', ''), p, a))
    r = [K(t, 4, 0, 1) for t in (('int', 'double', 'bool') if tier == 'quick' else ('int', 'double', 'bool', 'long', 'unsigned', 'unsigned long', 'float', 'long double', 'float128'))]
    for t in ('double', 'int') if tier == 'quick' else ('double', 'int', 'bool', 'float128', 'unsigned'):
        for p in range(4):
            if tier == 'quick' and t == 'int': r.append(K(t, p, 0, 2))
            else: r += [K(t, p, a, min(a + 4, 11)) for a in (0, 4, 8)]
    if tier == 'quick': r += [K('bool', p, 0, 1) for p in range(4)]
    return r
check('C09', c09,
    rule='Every structural operation (merging in one and two dimensions with 2-4 operands and scalars, excluding, transposing, reducing, broadcasting, matrix-vector and tensor products, sequences, linspace, '
         'ranges, unit vectors, identity, constants) over every kind of operand, every shape and every parameter value (beyond both ends and extreme) is read in every way and compared with its definition; '
         'incompatible shapes and parameters must be rejected; later changes of every operand element must be seen.',
    bounds={'operands': '11 kinds per rank, on either side', 'shapes': '1D sizes 0..6; 2D shapes up to 4x3, all pairs (and triples) of 8-9 shapes', 'parameters': 'positions/counts -1..n+2 and extremes; last-k for k up to n+2'})

ALLT = ('int', 'double', 'bool', 'long', 'unsigned', 'unsigned long', 'float', 'long double', 'float128')
def c10(tier):
    K = lambda t, p, a, b: ('c10.cpp', san('-DC10_T=' + t, '-DC10_PART=%d' % p, '-DC10_KLO=%d' % a, '-DC10_KHI=%d' % b, opt=OQ(tier)), '%s.p%d.%d' % (t.replace(' ', ''), p, a))
    if tier == 'quick':
        r = [K('double', 0, 0, 4), K('double', 0, 4, 11)] + [K('double', p, 0, 11) for p in (1, 2, 3)] + [K('int', p, 0, 11) for p in range(4)]
        return r + [K('bool', 0, 0, 11), K('bool', 2, 0, 4), K('float128', 0, 0, 3), K('unsigned', 0, 0, 3), K('long', 0, 0, 2), K('float', 0, 0, 2)]
    return [K(t, p, a, b) for t in ALLT for p in range(4) for a, b in ((0, 5), (5, 11))]
check('C10', c10,
    rule='Every reduction, norm, extremum (with index), polynomial and predicate, with and without an explicit value for objects without elements, over every kind of operand, is evaluated on every vector / '
         'matrix over a small value domain chosen so that the defined result is exactly representable, on vectors over extremes, infinities and NaN, and compared with its definition; the two-operand ones '
         '(dot product, equality, two-operand predicates) on every pair of vectors and every pair of kinds (each with an array and with itself), with unequal sizes and shapes.',
    bounds={'values': '4 exact values, 4 extremes, 5 special values', 'sizes': '1D 0..4 complete (thorough 0..6), one odd element at every position of sizes 6,7,33 (thorough to 130); 7 shapes in 2D; pairs of sizes 0..3 and shapes',
            'polynomials': 'all coefficient vectors of size 0..3, all power vectors over {0,1,2,5}, invalid powers and sizes', 'kinds': '11 per rank'})

def c11(tier):
    K = lambda t, p: ('c11.cpp', san('-DC11_T=' + t, '-DC11_PART=%d' % p, opt=OQ(tier)), '%s.p%d' % (t.replace(' ', ''), p))
    if tier == 'quick': return [K(t, p) for t in ('double', 'int') for p in (0, 1)] + [K('bool', 0), K('bool', 1), K('unsigned', 0), K('float128', 1)]
    return [K(t, p) for t in ALLT for p in (0, 1)]
check('C11', c11,
    rule='Sorting (increasing, decreasing, by two user orders), shuffling (every seed of a set, the random device being replaced by the harness), traversal and the range/condition filters are executed on every '
         'vector over a small value domain held in 14 one-dimensional and 6 two-dimensional targets embedded in larger storage; the addressed elements must be exactly the sorted/permuted/selected ones and '
         'all other storage unchanged; filters are checked for every pair of bounds, read over 11 kinds of operands and written through.',
    bounds={'vectors': 'all vectors over 4 values up to size 4 (thorough 6), families of sizes 17-40 (multiplicative permutations, two odd elements), 7 shapes', 'bounds of filters': 'all pairs of 7 values', 'seeds': '8 (thorough 64)'})

def c12(tier):
    K = lambda t, p, a=0, b=11: ('c12.cpp', san('-DC12_T=' + t, '-DC12_PART=%d' % p, '-DC12_KLO=%d' % a, '-DC12_KHI=%d' % b, opt=OQ(tier)), '%s.p%d.%d' % (t.replace(' ', ''), p, a))
    if tier == 'quick': return [K('double', 3)] + [K('double', p, a, b) for p in (0, 1, 2) for a, b in ((0, 6), (6, 11))] + [K('double', 4), K('int', 0, 0, 4), K('int', 2, 0, 2), K('bool', 1, 0, 4)]
    return [K(t, p, a, b) for t in ALLT for p in (0, 1, 2) for a, b in ((0, 6), (6, 11))] + [K(t, 3) for t in ALLT] + [K('int', 4)]
check('C12', c12,
    rule='For every kind of object the iterators, constant and reverse iterators, row and column iterators are placed at every position from two before the first to two past the last; at each position every '
         'increment, jump, difference, comparison, dereference, arrow and subscript (in and out of range, extreme) and every pair of moves is executed and compared with index arithmetic; iterators that point '
         'nowhere or into different objects must be rejected; index ranges are walked completely for every shape; writes through every mutable position and 25 standard algorithms over every vector of a small '
         'domain are compared with the same algorithm on a plain sequence, in 14 targets embedded in larger storage.',
    bounds={'sizes': '1D 0,1,2,3,6; 2D 0x0..3x2; index ranges -1..4 squared', 'kinds': '11 per rank, 14+6 writable targets', 'algorithms': 'all vectors over 3 values up to size 3 (thorough 5), permutations of sizes 4, 6, 19'})

C13_G = ('int', 'long', 'unsigned,unsigned long', 'float,double', 'long double,float128,bool')
check('C13', lambda tier: [('c13.cpp', san('-DC13_TYPES=' + t, *(['-DC13_WRAP'] if 'bool' in t else []), opt=OQ(tier)), t.replace(' ', '').replace(',', '-')) for t in C13_G],
    rule='For every type, every unary and binary operator, compound assignment, comparison, increment and conversion is executed on every pair of values of a boundary lattice (and every pair of small integers) '
         'and compared with the built-in operation where that is defined; division, remainder and shift errors must be reported with the operand unchanged. Every program of the stated length over a '
         'statement language on two variables is run on strict and on built-in variables and compared after every statement. Tagged values, literals and constants are enumerated as well.',
    bounds={'lattice': 'integers: 0, all 2^k and 2^k+-1 with both signs, extremes, -33..33; floating point: signed zeros, subnormals, powers of two over the whole range, rounding boundaries, tenths, largest finite, infinities, NaN (about 190-420 values per type)',
            'programs': 'all sequences of 3 (thorough 4) statements out of 12-18 from 16-36 initial states', 'small integers': 'all pairs in -70..70'})

check('C15', lambda tier: [('c15.cpp', san('-DC15_T=' + t, *(['-DC15_COMB'] if t == 'int' else []), opt=OQ(tier)), t.replace(' ', '')) for t in ALLT if t != 'bool'],
    rule='Every helper function is evaluated on every value, every pair and every triple of a boundary lattice of its type and compared with the built-in function or with exact rational arithmetic '
         '(error-free transformations, correctly rounded roots, inverses and fused operations, integer powers, powers with correction); arguments outside the domain must be rejected. Factorials and binomial '
         'coefficients are enumerated over their complete representable domain up to n = 200 and for extreme n.',
    bounds={'lattice': 'about 200-390 integers and 310 floating-point values (signed zeros, subnormals, rounding boundaries, whole exponent range, infinities, NaN); all pairs; triples over 19-21 (thorough 50) values',
            'powers': 'exponents -40..40 and selected to 1023 and the extremes; powers with correction 0..40 (thorough 150)'})

def c16(tier):
    K = lambda t, p, a, b: ('c16.cpp', san('-DC16_T=' + t, '-DC16_PART=%d' % p, '-DC16_KLO=%d' % a, '-DC16_KHI=%d' % b), '%s.p%d.%d' % (t.replace(' ', ''), p, a))
    if tier == 'quick':
        return [K('double', 0, 0, 4), K('double', 0, 4, 11), K('double', 1, 0, 4), K('double', 2, 0, 6), K('double', 3, 0, 3)] + [K(t, p, 0, 1) for t in ('float', 'long double', 'float128') for p in (0, 2, 3)]
    return [K(t, p, a, b) for t in ('double', 'float', 'long double', 'float128') for p in range(4) for a, b in ((0, 1), (1, 6), (6, 11))]
check('C16', c16,
    rule='Every vector (pair of vectors, coefficient/point/power combination) over value domains chosen to be ill-conditioned (1, +-2^p, 2^p+1+4, 2^-p, 1+ulp, thirds, ...) is summed, averaged, multiplied, '
         'normed, dotted and evaluated as a polynomial by the compensated algorithms; each result must lie within the compensated bound u|E| + 4 n^2 u^2 sum|t_i| of the exact value E computed in '
         'arbitrary-precision rational arithmetic, and must equal it when the exact result and all partial results are representable; empties, single elements and unequal sizes are included.',
    bounds={'vectors': 'all vectors over 8 values up to size 4 (thorough 5), over 3 values of size 6, cancelling pairs at every position of sizes 6 and 9 and selected positions of sizes 63-129 (thorough to 1000)',
            'dot': 'all pairs of vectors over 6/4/3 values up to size 3/4; every kind with an array and with itself', 'polynomials': 'all coefficient vectors over 4 values up to size 3 (thorough 4), 7 points, powers up to 11; expanded (x-1)^k, k<=10, next to the root',
            'kinds': '11 per rank', 'types': 'float, double, long double, quad'})

def c17(tier):
    K = lambda t, p: ('c17.cpp', san('-DC17_T=' + t, '-DC17_PART=%d' % p, opt=OQ(tier)), '%s.p%d' % (t.replace(' ', ''), p))
    if tier == 'quick': return [K(t, p) for t in ('int', 'unsigned long', 'double', 'float128') for p in (0, 1)] + [K('float', 0), K('bool', 1)]
    return [K(t, p) for t in ALLT for p in (0, 1) if t != 'bool' or p == 1]
check('C17', c17,
    rule='Every scalar of a boundary lattice, every array over a small value domain and arrays of every length and shape up to a bound are printed (operators, print functions, files) and read back into targets of '
         'other sizes. Every token string over a token alphabet (numbers, malformed and out-of-range numbers, separators, blank lines), every ragged shape, every prefix of printed text, a device failing after every '
         'number of characters, every unreadable path and every single allocation failure while reading is executed; a reference tokenizer decides accept/reject and the content, and rejected input must leave the target as it was.',
    bounds={'values': 'integers: all +-2^k, 2^k+-1, 10^k and extremes; doubles: 6 mantissas at dense exponents over the whole range', 'arrays': 'all over 4-5 values up to size 4; every size to 70 (thorough 300); every shape to 9x9 (thorough 18x18)',
            'texts': 'all token strings over 10-18 tokens up to length 3 and the separator patterns of the harness', 'kinds': '11 per rank'})

def c22(tier):
    K = lambda t, a, b: ('c22.cpp', san('-DC22_T=' + t, '-DC22_KLO=%d' % a, '-DC22_KHI=%d' % b, opt=OQ(tier)), '%s.%d' % (t.replace(' ', ''), a))
    if tier == 'quick': return [K('double', 0, 3), K('double', 3, 7), K('double', 7, 11)] + [K(t, 0, 1) for t in ('float', 'long double', 'float128')]
    return [K(t, a, b) for t in ('double', 'float', 'long double', 'float128') for a, b in ((0, 3), (3, 7), (7, 11))]
check('C22', c22,
    rule='Every ordered pair of a boundary lattice of scalars with every tolerance and near-zero threshold, every pair of vectors over 7 values, every single difference at every position of longer sequences, every list overload '
         'and every operand kind on either side (with an array and with itself) is evaluated by the error metrics and tolerance tests and compared with the definitions evaluated with built-in operations; '
         'unequal sizes, transposed shapes of equal size, negative and NaN tolerances must be rejected.',
    bounds={'scalars': '41 x 41 values (signed zeros, extremes, 1 + k ulp around the tolerance), 13 tolerances x 13 thresholds', 'vectors': 'all pairs over 7 values up to size 2 (thorough 3); sizes 3, 6, 17, 64, 65',
            'shapes': '11 x 11 shape pairs', 'kinds': '11 per rank', 'types': 'double, float, long double, quad'})

def c18(tier):
    TD = lambda s: ['-D__TIME__="%s"' % s, '-Wno-builtin-macro-redefined']
    K = lambda t, p, s='00:00:07', opt=None: ('c18.cpp', san('-DC18_T=' + t, '-DC18_PART=%d' % p, *TD(s), opt=opt or OQ(tier)), '%s.p%d.%s' % (t.replace(' ', ''), p, s[-2:]))
    if tier == 'quick': return [K(t, 0) for t in ('int', 'long', 'unsigned long', 'double', 'float', 'float128', 'bool')] + [K(t, 1, opt='-O1') for t in ('int', 'double')]
    return [K(t, 0, s) for t in ALLT for s in ('00:00:07', '12:34:50')] + [K(t, 1) for t in ALLT if t != 'bool']
check('C18', c18,
    rule='The source of randomness of the unseeded generators (std::random_device, std::mt19937) is replaced by one the harness controls, and every sequence of its outputs over a boundary alphabet up to the stated length is run '
         'through every form of call and every interval of a boundary lattice. The seeded generators are run through every state of their source (period 10^7), every interval and boundary seeds, each request twice with '
         'other requests in between. Every value read in every way must be in the interval (and not zero), elements outside a target must stay, invalid intervals and sizes must be rejected.',
    bounds={'source': '6 values per output, all sequences of length <= 2 for every interval and <= 4 (thorough 6) for unit and unit-to-maximum intervals', 'intervals': 'all ordered pairs of 17-24 values whose width is representable',
            'seeds': '0..1499 (thorough 0..19999) and boundary seeds; sizes 0..130 (thorough 600)', 'build time': '__TIME__ fixed to 1 (thorough 2) values; the seconds digit only shifts the seed'})

def c20(tier):
    K = lambda t, p, *x: ('c20.cpp', san('-DC20_T=' + t, '-DC20_PART=%d' % p, *x, opt=OQ(tier)), '%s.%d' % (t.replace(' ', ''), p))
    if tier == 'quick': return [K('int', p, '-DC20_DEEP') for p in (0, 1)] + [K(t, p) for t in ('double', 'bool', 'float128') for p in (0, 1)]
    return [K(t, p, '-DC20_DEEP') for t in ALLT for p in (0, 1)]
check('C20', c20,
    rule='Every operation sequence of the stated depth over two live fixed-size arrays (1D alphabet of 40 operations, 2D of 34: copies, moves, self-assignment, swaps, every construction and assignment from lists, arrays, '
         'slices, expressions, iterators and the other alignment in every size or shape, element writes, compounds, containers) is run on the real library and on plain tuples; after it both objects are compared completely '
         '(elements through every accessor, storage inside the object, contiguity, alignment), and a rejected operation must leave both as they were.',
    bounds={'sizes': '1D: 0, 1, 2, 3, 5; 2D: 0x0, 1x1, 1x3, 2x2, 2x3, 3x2', 'depth': 'all sequences of length <= 2; length 3 for int at sizes 3 and 2x3 (thorough: every type, also 5 and 3x2)'})

def c24(tier):
    K = lambda t, *x: ('c24.cpp', san('-DC24_T=' + t, NOSIO, *x, opt=OQ(tier)), t.replace(' ', '') + ('.lazy' if x else ''))
    O = lambda t: ('c24.cpp', plain('-DC24_T=' + t, '-DC24_LAZY', opt='-O2'), t.replace(' ', '') + '.optimised')
    if tier == 'quick': return [K('double', '-DC24_LAZY'), K('int'), K('bool'), O('double')]
    return [K(t, '-DC24_LAZY') for t in ALLT] + [O(t) for t in ALLT]
check('C24', c24,
    rule='Every construction, resize, reshape, insertion, removal, access, generator, slice, merge, broadcast and product request is made with every value (pair, triple) of a lattice over the whole index type - extremes, '
         'powers of two, the array size and its neighbours, and all factor pairs whose product is small modulo 2^32, 2^64, 2^65 and 2^66 - on small arrays and on lazily evaluated objects of up to 2^63-1 elements. '
         'Validity and the selected elements are decided by 128-bit arithmetic; an invalid request must raise an error and leave the array as it was, a valid one must select exactly the right elements. '
         'The same enumeration is repeated with an optimised, uninstrumented build.',
    bounds={'lattice': '30-34 values per parameter; 3000 wrapping factor pairs', 'arrays': '1D sizes 0, 1, 2, 5; 2D shapes up to 3x3', 'lazy': '9 extents and 12 shapes up to 2^63-1 elements; read at both ends, thirds and middle'})

EIG = ['-isystem', '/usr/include/eigen3']
def c21(tier):
    K = lambda t, p, *x: ('c21.cpp', san('-DC21_T=' + t, '-DC21_PART=%d' % p, *EIG, *x, opt=OQ(tier)), '%s.%d' % (t.replace(' ', ''), p))
    if tier == 'quick': return [K('int', 0, '-DC21_DEEP'), K('double', 0), K('bool', 0), K('double', 1), K('bool', 1), K('float128', 1), K('double', 2), K('long', 2), K('float', 2)]
    return [K(t, p, '-DC21_DEEP') for t in ALLT for p in (0, 1, 2) if t != 'bool' or p < 2]
check('C21', c21,
    rule='Every operation sequence of the stated depth over two attached windows of one guarded buffer (1D: 20 operations, 7 window pairs; 2D: 18 operations, 8 shapes) - element writes through every accessor, raw writes, '
         'assignments, slices, views, iterators, compounds, copies - is run on the real library; after each step the whole buffer including its guard zones, both windows and a constant window are compared with the model and every '
         'element address with the row-major address. The same two-way aliasing is checked for data(), blas_data(), blas_array and Eigen maps of every shape, element by element, also after every reallocating operation. '
         'Eigen products are compared with the definition for all small matrices over a value domain, every shape, fixed and dynamic, aliased targets, and every incompatible combination.',
    bounds={'attach': 'all sequences of length <= 2; length 3 for int (thorough: every type)', 'shapes': '0..6 x 0..6 and sizes up to 65; products up to 6x6x6 (thorough 12) and selected shapes to 70',
            'small products': 'all matrices over 4 values up to 6 elements in total, 3 values (thorough 4) for 2x2 by 2x2', 'types': 'int, double, bool, quad, long, float (thorough 9)'})

def c14(tier):
    return [('c14.cpp', plain(opt='-O1'), '')]
check('C14', c14,
    rule='The explored space is a set of programs: every operator, compound assignment, conversion, construction, assignment, call and index form x every ordered pair of the 9 scalar types x operand kinds '
         '(built-in value, strict scalar, arrays, slices, rows, expressions of rank 1 and 2). Each program is decided by the compiler on the current headers - in batches with errors attributed to program lines, and on its own '
         'whenever the batch verdict differs from the reference - and its verdict is compared with a reference predicate (same type, operation defined for the type, compatible ranks, explicit conversion); '
         'a form none of whose programs is accepted is itself reported.',
    bounds={'programs': 'all enumerated forms (about 320) x 81 type pairs x kinds (quick: 6 representative kinds, thorough: all 21)', 'compiler': 'g++ 13, gnu++20'},
    limit=600)

AM = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'assertmode')
C19_QUIET = ['-D__TIME__="00:00:07"', '-Wno-builtin-macro-redefined']
COMMON19 = ['-DSTRICT_REMOVE_NODISCARD', '-DSTRICT_QUAD_PRECISION']
# (name, compiler arguments): one entry per build configuration whose results must agree
CONFIGS = {
    'exceptions-O0': ['-std=gnu++20', '-O0', '-DSTRICT_ERROR_EXCEPTIONS', '-DC19_AF=Unaligned'],
    'exceptions-nodebug-O3': ['-std=gnu++20', '-O3', '-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_DEBUG_OFF', '-DC19_AF=Aligned'],
    'exceptions-O2': ['-std=gnu++23', '-O2', '-DSTRICT_ERROR_EXCEPTIONS', '-DC19_AF=Aligned'],
    'assert-O1': ['-std=gnu++20', '-O1', '-DC19_AF=Aligned'],
    'assert-O0': ['-std=gnu++23', '-O0', '-DC19_AF=Aligned'],
    'assert-nodebug-O1': ['-std=gnu++20', '-O1', '-DSTRICT_DEBUG_OFF', '-DC19_AF=Unaligned'],
    'assert-nodebug-O3': ['-std=gnu++23', '-O3', '-DSTRICT_DEBUG_OFF', '-DC19_AF=Aligned'],
    'ndebug-O2': ['-std=gnu++23', '-O2', '-DNDEBUG', '-DC19_AF=Unaligned'],
    'clang-exceptions-O2': ['-std=gnu++20', '-O2', '-DSTRICT_ERROR_EXCEPTIONS', '-DC19_AF=Unaligned'],
    'clang-assert-nodebug-O1': ['-std=gnu++26', '-O1', '-DSTRICT_DEBUG_OFF', '-DC19_AF=Aligned'],
    'clang-assert-O0': ['-std=gnu++23', '-O0', '-DC19_AF=Unaligned'],
    'ndebug-nodebug-O0': ['-std=gnu++20', '-O0', '-DNDEBUG', '-DSTRICT_DEBUG_OFF', '-DC19_AF=Aligned'],
}
def c19(tier):
    def flags(t, p, c, *x):
        clang = c.startswith('clang')
        return {'args': ['-w', '-g0', '-pipe', *CONFIGS[c], *(COMMON19[:1] if clang else COMMON19), *C19_QUIET, '-DC19_T=' + t, '-DC19_PART=%d' % p, *x],
                'libs': [] if clang else LIBS, 'cxx': 'clang++' if clang else 'g++'}
    D = lambda t, p, c, *x: ('c19.cpp', {**flags(t, p, c, *x), 'agree': '%s.%d' % (t.replace(' ', ''), p)}, '%s.%d.%s' % (t.replace(' ', ''), p, c))
    I = lambda t, p, c: ('c19.cpp', flags(t, p, c, '-DC19_INVALID'), 'invalid.%s.%d.%s' % (t.replace(' ', ''), p, c))
    A = lambda src, *x: (src, {'args': BASE + [OQ(tier), '-DSTRICT_REMOVE_NODISCARD', '-DSTRICT_QUAD_PRECISION', '-DMC_ASSERT_MODE', '-I' + AM] + SAN + list(x), 'libs': LIBS}, 'assert.' + src[:-4] + '.' + '.'.join(a.split('=')[1] for a in x if '=' in a and a.startswith('-DC')))
    if tier == 'quick':
        r = [D('double', p, c) for p in range(4) for c in ('exceptions-O0', 'exceptions-nodebug-O3', 'assert-O1', 'ndebug-O2')]
        r += [D('int', p, c) for p in range(4) for c in ('exceptions-O0', 'assert-nodebug-O1', 'assert-O0')]
        r += [D('bool', p, c) for p in range(4) for c in ('exceptions-O0', 'assert-O0', 'ndebug-nodebug-O0')]
        r += [I('double', p, c) for p in range(3) for c in ('exceptions-O0', 'assert-O1')]
        r += [I('int', p, c) for p in range(3) for c in ('assert-O0', 'assert-nodebug-O1')] + [I('double', p, 'exceptions-nodebug-O3') for p in range(3)]
        return r + [A('c04.cpp', '-DC04_PART=0', NOSIO), A('c24.cpp', '-DC24_T=int', NOSIO), A('c12.cpp', '-DC12_T=int', '-DC12_PART=0', '-DC12_KLO=0', '-DC12_KHI=4')]
    r = [D(t, p, c, *(['-DC19_KS=0,1,2,3,4,5,6,7,8,9,10'] if t in ('double', 'int') else [])) for t in ALLT for p in range(4) for c in CONFIGS if t != 'float128' or not c.startswith('clang')]
    r += [I(t, p, c) for t in ALLT for p in range(3) for c in CONFIGS if not c.startswith('ndebug') and (t != 'float128' or not c.startswith('clang'))]
    r += [A('c04.cpp', '-DC04_PART=%d' % p, NOSIO) for p in (0, 1, 3, 4, 5)] + [A('c05.cpp', '-DC05_PART=%d' % p) for p in range(5)]
    r += [A('c24.cpp', '-DC24_T=' + t, '-DC24_LAZY', NOSIO) for t in ('int', 'double', 'bool')]
    r += [A('c12.cpp', '-DC12_T=' + t, '-DC12_PART=%d' % p, '-DC12_KLO=%d' % a, '-DC12_KHI=%d' % b) for t in ('int', 'double') for p in (0, 1, 2) for a, b in ((0, 6), (6, 11))]
    return r + [A('c13.cpp', '-DC13_TYPES=' + t) for t in C13_G[:4]] + [A('c03.cpp', '-DC03_DIM=%d' % d, '-DC03_T=int', NOSIO) for d in (1, 2)]
check('C19', c19,
    rule='A fixed enumeration of valid calls (scalars, 1D and 2D arrays, slices, constructors, edits, input and output, fixed and attached arrays, iterators, lists, seeded generators) is executed by programs that differ only in '
         'build configuration; each call yields a digest of everything it returns and changes, and the digests of all configurations are compared call by call. Every call of an enumeration of invalid calls runs in a child process of its own: '
         'it must throw StrictException with exceptions, abort through the assertion handler without them, and the always-checked ones must do so with debug checks off; the checks of C04, C12 and C24 are repeated in assertion mode.',
    bounds={'configurations': 'quick: 3-4 per type; thorough: 9 (error reporting by exception / assertion / NDEBUG x debug checks on / off x -O0..-O3 x gnu++20/23 x alignment)',
            'calls': 'about 60 000 valid and 3 000 invalid calls per type and configuration', 'types': 'double, int, bool (thorough: 9)'})

CEV_G = ['-fconstexpr-ops-limit=100000000000', '-fconstexpr-loop-limit=100000000', '-fconstexpr-depth=2000']
CEV_C = ['-fconstexpr-steps=2000000000', '-fconstexpr-depth=2000']
def c23(tier):
    def flags(clang, t, p, std, opt, *x):
        return {'args': ['-std=' + std, '-w', '-g0', '-pipe', opt, '-DSTRICT_ERROR_EXCEPTIONS', '-DSTRICT_REMOVE_NODISCARD', *([] if clang else ['-DSTRICT_QUAD_PRECISION']), *C19_QUIET,
                         *(CEV_C if clang else CEV_G), '-DC23_T=' + t, '-DC23_PART=%d' % p, *x], 'libs': [] if clang else LIBS, 'cxx': 'clang++' if clang else 'g++'}
    G = lambda t, p, opt='-O0', std='gnu++20', *x: ('c23.cpp', flags(False, t, p, std, opt, *x), 'gcc.%s.%d.%s.%s' % (t.replace(' ', ''), p, std, opt))
    C = lambda t, p, opt='-O0', std='gnu++23', *x: ('c23.cpp', flags(True, t, p, std, opt, *x), 'clang.%s.%d.%s.%s' % (t.replace(' ', ''), p, std, opt))
    P = [('c23p.cpp', plain(opt='-O1'), 'programs')]
    if tier == 'quick':
        return [G('double', p) for p in (5, 7, 0, 1, 2, 3, 4, 6)] + [G('int', p) for p in (0, 2, 3, 6)] + [G('bool', p) for p in (0, 3, 4)] + [G('long', 0), G('unsigned', 0), G('float', 0)] + \
            [C('double', p) for p in (8, 0, 2, 3)] + [C('int', p) for p in (8, 0)] + P
    # functions of the standard library that become constexpr in C++23 exist only in clang's mode here
    return [G(t, p, o, s) for t in ALLT for p in range(8) for o, s in (('-O0', 'gnu++20'), ('-O2', 'gnu++23'))] + [C(t, p, o, s) for t in ALLT if t != 'float128' for p in range(9) for o, s in (('-O0', 'gnu++23'), ('-O2', 'gnu++20')) if p < 8 or s == 'gnu++23'] + P
check('C23', c23,
    rule='(a) Every call of a fixed enumeration of operations over all small shapes and parameters (scalars, every kind of array, unary and binary operations, slices, edits, reductions, structural operations, algorithms, seeded generators) is evaluated by '
         'the compiler, which rejects every undefined behaviour on the way, and again at run time from the same inputs; the two digests of every result are compared. (b) Every operation with every parameter of a domain that reaches '
         'beyond both ends is a constant-evaluation program of its own, and the compiler must accept exactly the valid ones, with exceptions and with assertions.',
    bounds={'operations': 'about 350 forms of call; sizes 0..6, shapes up to 3x4, domains of 8 values, nesting depth 2', 'programs': 'about 24 000 per failure mode',
            'types': 'double, int, bool, long (thorough: 9)', 'compilers': 'g++ (C++20), clang++ (C++23; also -O2 and the other standard in thorough)'},
    limit=600)

def c25(tier):
    if tier == 'quick': return [('c25.cpp', san(), 'all')]
    return [('c25.cpp', san(), 'all'), ('c25.cpp', plain(opt='-O2'), 'O2')]
check('C25', c25,
    rule='The reachable states of the two format objects are explored explicitly: every history of setting calls (reset, notation, common and per-type precision, chained, saved and restored, rejected negative ones; '
         'detailed, row and column style) up to a depth is executed, the model being the tuple of settings. In every state the query functions and the text of scalars of every type, of arrays, views, slices and the print functions '
         'are compared word for word with the rendering of the C library (libquadmath for quad) under the modelled settings; every pair of prior manipulators and prior prints on the stream is explored as well.',
    bounds={'histories': 'format settings: all of length 2 over 34 calls and of length 3 over 24 (thorough 3 over 34, completely observed); layouts: all of length 3 (thorough 4) over 7 calls',
            'precisions': '0, 1-5, 40, 150 (states: all pairs of 0, 2, 17, 40, 121, 150; thorough 13 values to 400)', 'values': '4-10 per type: both zeros, thirds, 1e+-200, 1e900 for quad, integer extremes', 'arrays': 'sizes 0-3 and 11; 7 shapes up to 11x2 and 2x11'})
