import itertools
from driver import Case, HARN

U = ['unicode', 'wcwidth', 'htable']
PROPS = {}


def _cb(*a, **k):
    return Case(*a, engine='cbmc', **k)


def u01(tier):
    cs = [_cb('encode', 'u_encode.c', U, ['-DPART=1'], unwind=9, what='one symbolic 32-bit code')]
    for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)):
        cs.append(_cb('alloc%d' % n, 'u_encode.c', U, ['-DPART=2', '-DN=%d' % n], unwind=4 * n + 2,
                       what='%d symbolic 32-bit codes' % n))
    return cs


PROPS['U01'] = dict(
    cases=u01, explanation='All 2^32 input codes of the encoder against an arithmetic reference; the allocating '
    'form for every array of 1..3 (thorough: 5) codes.',
    bounds={'code': 'all 2^32', 'array length': '3 (thorough 5)'},
    outside=['arrays longer than the bound', 'allocation failure'],
    assumptions=['the output buffer has the documented 4 bytes', 'malloc succeeds'])


def u02(tier):
    n = 6 if tier == 'quick' else 10
    return [_cb('bytes%d' % n, 'u_decode.c', U, ['-DN=%d' % n], unwind=n + 2,
                 what='every byte string of length %d from a fresh machine' % n),
            _cb('roundtrip', 'u_decode.c', U, ['-DPART_ROUNDTRIP'], unwind=9,
                 what='any 5 bytes, one ASCII byte, then the encoding of any code point')]


PROPS['U02'] = dict(
    cases=u02, explanation='Decoder events (accept/reject/character) after every byte equal an RFC 3629 '
    'reference for all byte strings up to the bound; the decoder state has period at most 4 bytes so 6 bytes cover '
    'every state and every transition out of it.',
    bounds={'bytes': '6 (thorough 10)'}, outside=['longer strings (state space is covered)'],
    assumptions=['malloc succeeds'])


def u04(tier):
    return [_cb('width', 'u_width.c', U, [], unwind=12, max_unwind=384, what='one symbolic 32-bit code')]


PROPS['U04'] = dict(
    cases=u04, explanation='Width of all 2^32 codes against an interval list.',
    bounds={'code': 'all 2^32'}, outside=['characters newer than Unicode 9'],
    assumptions=['the frozen interval list width_ref.h (Unicode 9 Mn/Me and W/F) is the intended classification'])

ALLOC = ['-include', HARN + '/vpalloc.h']
W1 = 'stub_width.c'


def u03(tier):
    real = lambda nm, defs, **kw: Case(nm, 'u_symbol.c', ['unicode', 'htable'], defs, stubs=['vpalloc.c', W1],
                                       repo_defs=ALLOC, **kw)
    setm = lambda nm, defs, **kw: Case(nm, 'u_symbol.c', ['unicode'], defs, stubs=['stub_htable.c', 'vpalloc.c', W1],
                                       repo_defs=ALLOC, **kw)
    cs = [real('chain', ['-DPART=2', '-DK=11', '-DFAILS=0'], what='a chain of 11 appends to any code point'),
          real('unknown', ['-DPART=3', '-DK=1', '-DFAILS=0'], what='any symbol value on an empty table'),
          real('invalid', ['-DPART=1', '-DK=1', '-DFAILS=0', '-DFROM=0'], what='any base, any mark')]
    th = tier != 'quick'
    cs += [real('many', ['-DPART=4', '-DK=%d' % (140 if th else 70), '-DFAILS=0'], what='a large table'),
           real('manyfail', ['-DPART=4', '-DK=%d' % (40 if th else 20), '-DFAILS=1'], what='a large table, any one allocation fails')]
    for f in ((0, 0), (0, 1)):
        nm = ''.join(map(str, f))
        d = ['-DPART=1', '-DK=2', '-DFROM=' + ','.join(map(str, f)), '-DVALID']
        cs.append(real('appends2_%s' % nm, d + ['-DFAILS=0'], what='2 appends, any base and marks'))
        cs.append(real('appends2fail_%s' % nm, d + ['-DFAILS=%d' % (2 if th else 1)],
                       what='2 appends, any allocation may fail'))
    for f in itertools.product((0,), (0, 1), (0, 1, 2)):
        nm = ''.join(map(str, f))
        d = ['-DPART=1', '-DK=3', '-DFROM=' + ','.join(map(str, f)), '-DVALID']
        cs.append((real if th else setm)('appends3_%s' % nm, d + ['-DFAILS=0'], timeout=2000, what='3 appends'))
        cs.append(setm('appends3fail_%s' % nm, d + ['-DFAILS=2'], what='3 appends, allocations may fail'))
    if th:
        for f in itertools.product((0,), (0, 1), (0, 1, 2), (0, 1, 2, 3)):
            nm = ''.join(map(str, f))
            d = ['-DPART=1', '-DK=4', '-DFROM=' + ','.join(map(str, f)), '-DVALID']
            cs.append(setm('appends4_%s' % nm, d + ['-DFAILS=0'], timeout=2000, what='4 appends'))
    return cs


PROPS['U03'] = dict(
    cases=u03, explanation='Append histories on the real symbol table: every choice of base, marks and of the symbol '
    'appended to, with and without failing allocations; one chain to the maximum combined length; large tables that grow several times, with and without a failing allocation, then any further append.',
    bounds={'appends per history': '3 (thorough 4) with any characters; 70 (thorough 140), or 20 (40) with a failing allocation, of a fixed list followed by any append with any of 43 marks', 'chain length': 11, 'failing allocations': '1 (thorough 2)'},
    outside=['longer histories of arbitrary characters'],
    assumptions=['for 3 and more appends (quick) the hash table is a set model; H02 decides that the real one is a set', 'width of a code point is an uninterpreted function (decided by U04)'])
