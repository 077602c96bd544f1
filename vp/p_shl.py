"""The helper library: ring buffer, hash table, array, pseudo terminal."""
from driver import Case, HARN

PROPS = {}
ALLOC = ['-include', HARN + '/vpalloc.h']


def h(name, harness, srcs, d, stubs=('vpalloc.c',), **kw):
    return Case(name, harness, srcs, list(d), stubs=list(stubs), repo_defs=ALLOC, **kw)


def h01(tier):
    th = tier != 'quick'
    cs = []
    for s in (1, 2, 4, 8) + ((16,) if th else ()):
        cs.append(h('ring%d' % s, 'h_ring.c', ['ring'], ['-DSIZE=%d' % s, '-DSTEPS=%d' % (1 if s == 8 else 2), '-DPUSHMAX=%d' % min(s, 4), '-DFAILS=0']))
    cs.append(h('big', 'h_rbig.c', ['ring'], ['-DFAILS=1'], max_steps=60000000))
    cs.append(h('empty', 'h_ring.c', ['ring'], ['-DSIZE=0', '-DSTEPS=3', '-DPUSHMAX=3', '-DFAILS=1']))
    cs.append(h('fail', 'h_ring.c', ['ring'], ['-DSIZE=4', '-DSTEPS=2', '-DPUSHMAX=3', '-DFAILS=1']))
    return cs


def h02(tier):
    th = tier != 'quick'
    FX = '-DFIXED=0x550000001000,0x550000001010,0x550000002008,0x7f0000001000,0x550000001020'
    t = lambda n, *d, **k: h(n, 'h_htable.c', ['htable'], d, **k)
    PT = ','.join('0x5500000010%02x' % (16 * i) for i in range(8))
    PL = ','.join('0x5500000010%02x' % i for i in (0x10, 0x21, 0x32, 0x43, 0x54, 0x65, 0x77, 0x88))
    cs = [t('full8', '-DNE=8', '-DNK=8', '-DSCRIPT=6', '-DOPS=2', '-DFAILS=0', '-DFIXED=' + PT,
            '-DHBASE=7,7,0,0,3,4,5,3', '-DHMASK=7,1,7,0x10,0,0,0,0x18' if th else '-DHMASK=7,0,7,0,0,0,0,0'),
          t('full8b', '-DNE=8', '-DNK=8', '-DSCRIPT=6', '-DOPS=2', '-DFAILS=0', '-DFIXED=' + PL,
            '-DHBASE=7,6,7,0,7,4,5,7', '-DHMASK=7,1,7,0x10,0,0,0,0x18' if th else '-DHMASK=7,1,0,0x10,0,0,0,0'),
          t('full8c', '-DNE=8', '-DNK=8', '-DSCRIPT=7', '-DOPS=1', '-DFAILS=0', '-DFIXED=' + PL,
            '-DHBASE=7,6,7,0,7,4,5,7', '-DHMASK=7,1,0,0x10,0,0,0,0x18' if th else '-DHMASK=7,1,0,0x10,0,0,0,0'),
          t('any2', '-DNE=2', '-DOPS=2', '-DFAILS=1', cost=5),
          t('masked', '-DNE=3', '-DOPS=3', '-DFAILS=0', '-DPTRMASK=0x10010', '-DHASHMASK=0x3', cost=5),
          t('fail', '-DNE=2', '-DNK=1', '-DOPS=4', '-DFAILS=1', FX, '-DHASHMASK=0x103'),
          t('fixed3', '-DNE=3', '-DOPS=4', '-DFAILS=0', FX, '-DHASHMASK=0x2', cost=5),
          t('fixed4', '-DNE=4', '-DNK=1', '-DOPS=5', '-DFAILS=0', FX, '-DHASHMASK=0x5', '-DINIT', cost=5),
          h('many', 'h_tmany.c', ['htable'], ['-DNE=%d' % (500 if th else 200), '-DFAILS=0'], max_steps=60000000),
          h('manyfail', 'h_tmany.c', ['htable'], ['-DNE=%d' % (300 if th else 100), '-DFAILS=1'], max_steps=60000000),
          h('churn', 'h_tmany.c', ['htable'], ['-DNE=40', '-DFAILS=1', '-DCHURN=3'], max_steps=60000000),
          h('churn1', 'h_tmany.c', ['htable'], ['-DNE=40', '-DFAILS=0', '-DCHURN=1'], max_steps=60000000),
          h('churn12', 'h_tmany.c', ['htable'], ['-DNE=40', '-DFAILS=0', '-DCHURN=12'], max_steps=60000000),
          h('ulong', 'h_keys.c', ['htable'], ['-DMASK=0xf00000000000000f', '-DOPS=2']),
          h('str', 'h_keys.c', ['htable'], ['-DSTR', '-DOPS=2'])]
    return cs


def h03(tier):
    return [h('bytes', 'h_array.c', [], ['-DES=1', '-DFAILS=1', '-DSTEPS=4']),
            h('many', 'h_amany.c', [], ['-DN=%d' % (300 if tier != "quick" else 70), '-DFAILS=1'], max_steps=60000000),
            h('words', 'h_array.c', [], ['-DES=3', '-DFAILS=0', '-DSTEPS=4'])]


def h04(tier):
    return [Case(n, 'h_macro.c', [], ['-DPART=%d' % i], what=w) for i, (n, w) in enumerate((
        ('small', 'all 8 and 16 bit factors'), ('word', 'all 32 bit factors'), ('long', 'all 64 bit values, 22 factors'),
        ('long2', 'the same, long and long long'), ('compare', 'minimum, maximum, clamp of five types'),
        ('cleanup', 'errno, free, close at the end of a block, any integer through a pointer')))]


PROPS['H04'] = dict(
    cases=h04, explanation='Each helper of shl-macro.h with symbolic operands against wide arithmetic (8, 16, 32 bit) or the quotient (64 bit); the cleanup '
    'attributes with recording stand-ins for free and close.',
    bounds={'8, 16, 32 bit products': 'all operands', '64 bit products': 'every value times 22 factors around the powers of two', 'minimum, maximum, clamp': 'all values of five types'},
    outside=['64 bit products with other factors: SMT solvers do not decide 64x64-bit multiplication'], assumptions=['x86-64 sizes of the types'])

PROPS['H01'] = dict(
    cases=h01, explanation='Any ring of 0 to 8 (thorough 16) bytes with any start, fill and contents, then any pushes, pulls (any '
    'size_t), flushes and oversized pushes; size, both peek forms and copies of any length equal a byte queue after each of them, also when the allocation fails.',
    bounds={'large rings': '4096 bytes, starts, fills, pushes and pulls at and around the ends and beyond (growing to 32768), any one allocation failing', 'ring': '0, 1, 2, 4, 8 bytes before growing (to 4096)', 'operations': '1..3', 'bytes per push': '0..4 and all above 2^63'},
    outside=['other sizes between the small and the large rings', 'pushes between 16k and 2^63 bytes'], assumptions=['a power-of-two size, start within it, as the functions themselves leave it'])
PROPS['H02'] = dict(
    cases=h02, explanation='Any insertions and removals of elements with symbolic addresses and symbolic 64-bit hash values, colliding or not; '
    'after each every key is looked up, at the end the table is visited and cleared: all equals a multiset. Growing, deleted markers, rehashing and failing allocations included.',
    bounds={'large tables': '200 fixed elements (100 with a failing allocation; thorough 500, 300) with colliding and spread hash values and late address bits, then insertion or removal of any one', 'elements': '2..4, up to 8 in the rehash cases', 'operations': '2..5', 'addresses': '17 free bits with 2 operations, 2 free bits with 3, fixed ones otherwise', 'hash bits': '64 with 2 operations, 2..3 otherwise', 'keys': '1..2; numbers with 8 free bits, strings of 0..1 bytes'},
    outside=['more elements and operations'], assumptions=['equal keys have equal hash values'])
PROPS['H03'] = dict(
    cases=h03, explanation='Any four of push, pop, zero-filling resize and invalid calls on an array of any initial size; length, contents and results equal a plain sequence, with and without a failing allocation.',
    bounds={'large arrays': '70 elements (thorough 300), any one allocation failing, then a resize to any size', 'operations': 4, 'element size': '1, 3 bytes', 'resize': '0..9 elements', 'initial size': '0..3'},
    outside=['larger arrays', 'sizes that overflow size_t'], assumptions=[])

SYS = ['-include', HARN + '/vpsys.h']


def p01(tier):
    th = tier != 'quick'

    def p(name, *d, **kw):
        return Case(name, 'p_pty.c', ['pty', 'ring'], list(d), stubs=['vpalloc.c'], repo_defs=SYS + ALLOC, **kw)
    return [p('open', '-DPART=1'), p('misc', '-DPART=3'),
            p('data', '-DPART=2', '-DSTEPS=%d' % (3 if th else 2)),
            p('large', '-DPART=2', '-DLARGE', '-DWMAX=9000', '-DSTEPS=%d' % (3 if th else 2), max_steps=60000000),
            p('full', '-DPART=2', '-DSTEPS=1', '-DFULL'),
            p('bridge', '-DPART=2', '-DBRIDGE', '-DSTEPS=%d' % (3 if th else 2))]


PROPS['P01'] = dict(
    cases=p01, explanation='The real shl-pty.c and shl-ring.c on a kernel model in which every system call result is a symbolic choice: '
    'read and writev give EAGAIN, EINTR, EIO, end of file, short or full counts; any one set-up call fails on either side of the fork. '
    'Bytes, results, re-arming of the edge-triggered descriptor, descriptors and memory are compared.',
    bounds={'large writes': 'up to 9000 bytes twice (thorough three times), written whole or cut at and around the buffer ends', 'dispatches': '2 (thorough 3)', 'bytes per write': '0..2', 'bytes per read': '1, 2, 16383', 'failing set-up calls': 1},
    outside=['what the kernel really does', 'a callback that closes the terminal', 'several terminals in one bridge'],
    assumptions=['the kernel model in p_pty.c'])
