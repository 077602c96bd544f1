"""The screen: one arbitrary screen state, one real operation, compared with a
reference (s_op.c); drawing, copying, ageing, allocation failure."""
from driver import Case, HARN

S = ['screen', 'selection', 'render', 'unicode', 'htable']
ST = ['stub_width.c']
PROPS = {}


def op(o, tag='', d=(), **kw):
    return Case((o + tag).lower(), 's_op.c', S, ['-DOP=' + o] + list(d), stubs=ST,
                what='any screen, ' + o.lower().replace('_', ' ') + ' with any arguments', **kw)


def hc(name, h, d, **kw):
    return Case(name, h, S, d, stubs=ST, **kw)


def sz(x, y, lx=0, ln=0, xm=0, ym=0, sb=0, free=0, sbw=0):
    d = ['-DX=%d' % x, '-DY=%d' % y]
    for n, v in (('LX', lx), ('LN', ln), ('XM', xm), ('YM', ym), ('SBN', sb), ('SBMAX_FREE', free), ('SBW', sbw)):
        if v:
            d.append('-D%s=%d' % (n, v))
    return d


EDIT = ['INS_CHARS', 'DEL_CHARS', 'ERASE_CURSOR', 'ERASE_CHARS', 'ERASE_TO_EOL', 'ERASE_FROM_BOL', 'ERASE_LINE',
        'ERASE_TO_CURSOR', 'ERASE_FROM_CURSOR', 'ERASE_SCREEN']
MOTION = ['MOVE_TO', 'MOVE_UP', 'MOVE_DOWN', 'MOVE_LEFT', 'MOVE_RIGHT', 'LINE_END', 'LINE_HOME', 'SET_MARGINS']
SCROLL = ['SCROLL_UP', 'SCROLL_DOWN', 'NEWLINE', 'MOVE_UP', 'MOVE_DOWN', 'INS_LINES', 'DEL_LINES']
ROWS = ['SCROLL_UP', 'SCROLL_DOWN', 'NEWLINE', 'MOVE_UP', 'MOVE_DOWN', 'INS_LINES', 'DEL_LINES']
TABS = ['TAB_RIGHT', 'TAB_LEFT', 'SET_TAB', 'RESET_TAB', 'RESET_ALL_TABS', 'RESET']
SB = ['SET_MAX_SB', 'CLEAR_SB', 'SB_UP', 'SB_DOWN', 'SB_PAGE_UP', 'SB_PAGE_DOWN', 'SB_RESET']
MISC = ['SET_FLAGS', 'RESET_FLAGS', 'SET_DEF_ATTR', 'SEL_RESET', 'SEL_START', 'SEL_TARGET']
CHANGE = ['WRITE', 'RESIZE'] + EDIT + MOTION + [o for o in SCROLL if o not in MOTION] + TABS + SB + MISC
ALL = CHANGE + ['DRAW', 'COPY']
COMMON_ASSUME = ['malloc succeeds (failure: S14)', 'the width of a symbol is an uninterpreted function with values 0..2 (decided by U04)']
STATE = ('The starting screen is arbitrary: symbolic cells, attributes, ages, tab stops and flags, every cursor position '
         'including pending wrap, ')


def hist(name, h1, h2, d, **kw):
    return Case('hist_' + name, 's_op.c', S, ['-DH1=' + ','.join(h1), '-DH2=' + ','.join(h2)] + list(d), stubs=ST,
                what='any screen, one of %d operations, then one of %d' % (len(h1), len(h2)), **kw)


def big(n, flags=0, ascii=False, thin=0, conc=False, l=None):
    """positions and counts of a screen n cells wide or tall"""
    l = l or sorted({0, 255, 257} if thin > 1 else {0, 1, 255, 257, n - 1} if thin else {0, 1, 127, 128, 255, 256, n - 1, n, n + 1})
    return ['-DBIG=' + ','.join(map(str, l)), '-DBIGMAX=%d' % (n + 1), '-DNOMARGINS', '-DFLAGS_MASK=%d' % flags] + ['-DBIGASCII'] * ascii + ['-DBIGCONC'] * conc


WIDE = sz(260, 1) + big(260)
HIGH = sz(1, 260) + big(260)
BIGSB = dict(l=[0, 1, 256, 259, 260, 262])


HD = ['-DARGS=3', '-DNOMARGINS', '-DCXMAX=X']


def s01(tier):
    th = tier != 'quick'
    cs = []
    for o in ALL:
        d = sz(2, 2, 3, 3, 3, 3, sb=1, free=1) + ['-DSEL', '-DCXMAX=X', '-DNOMARGINS', '-DFLAGS_MASK=0x67']
        if o in ('DRAW', 'COPY'):
            d += ['-DCH_MIN=0x21', '-DCH_MAX=0x7f', '-DWIDTH1']
        if o.startswith('ERASE'):
            d.remove('-DSEL')
        cs.append(op(o, '', d, cost=9 if o in ('WRITE', 'RESIZE', 'MOVE_TO', 'MOVE_UP', 'MOVE_DOWN') else 0))
        if th:
            d = sz(3, 3, 4, 4, 4, 4, sb=2, free=1) + ['-DCXMAX=X+1', '-DNOMARGINS', '-DSEL']
            if o in ('DRAW', 'COPY'):
                d += ['-DCH_MIN=0x21', '-DCH_MAX=0x7f', '-DWIDTH1']
            cs.append(op(o, '_3x3', d, timeout=3000))
    for o in ALL:
        cs.append(op(o, '_1x1', sz(1, 1, sb=1, xm=2, ym=2) + ['-DSEL'] +
                     (['-DCH_MIN=0x21', '-DCH_MAX=0x7f'] if o in ('DRAW', 'COPY') else [])))
    return cs


PROPS['S01'] = dict(
    cases=s01, explanation=STATE + 'an optional selection between any two places of scrollback and screen, and rows '
    'wider and more numerous than the screen (as left behind by a shrink). Every operation of the screen interface is '
    'executed once on it with symbolic arguments: each memory access is decided in bounds, and the structural invariants '
    'hold again afterwards, so by induction they hold after every history (within the sizes).',
    bounds={'screen': '2x2 (allocated 3x3) and 1x1; thorough also 3x3 (allocated 4x4)', 'scrollback': '0..2 lines',
            'arguments': 'all 2^32 values', 'steps': 'one, inductive'},
    outside=['screens larger than the bound', 'use after the last unref', 'memory exhaustion (S14)'],
    assumptions=COMMON_ASSUME)


def s02(tier):
    th = tier != 'quick'
    cs = [op('WRITE', '', sz(3, 3, sb=1, free=1), cost=9),
          op('WRITE', '_wide', sz(4, 2, lx=5, ln=3)),
          op('WRITE', '_1x1', sz(1, 1, sb=1, free=1)), op('WRITE', '_2x1', sz(2, 1)), op('WRITE', '_1x3', sz(1, 3))]
    if th:
        cs += [op('WRITE', '_5x4', sz(5, 4, lx=6, sb=2, free=1), timeout=3000)]
    cs += [op('WRITE', '_big', sz(260, 1) + big(260, 0x3)), op('WRITE', '_bigh', sz(1, 260) + big(260, 0x2))]
    cs.append(hist('write', CHANGE, ['WRITE'], sz(2, 3, xm=2, ym=3) + HD + ['-DFLAGS_MASK=0x2']))
    return cs


PROPS['S02'] = dict(
    cases=s02, explanation=STATE + 'every margin pair. One character with any symbol value, width and attributes is '
    'written; cells, cursor, scrollback and everything else must equal the reference.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260x1', 'histories': 'any one of the state-changing operations before, with arguments 0..3, on 2x3 or smaller', 'screen': '3x3, 4x2, 1x1, 2x1, 1x3 (thorough 5x4)', 'scrollback': '0..2 lines'},
    outside=['larger screens', 'contents of the continuation cell of a wide character other than its width'],
    assumptions=COMMON_ASSUME)


def s03(tier):
    th = tier != 'quick'
    x = sz(3, 3) if not th else sz(4, 5, lx=5, ln=6)
    d = ['-DNOMARGINS'] if False else []
    hs = [hist('motion%d' % i, [o for o in CHANGE if o not in EDIT], MOTION[i::3], sz(2, 3, xm=2, ym=3) + HD + ['-DFLAGS_MASK=0x4', '-DCH_MAX=0x7f'], cost=9) for i in range(3)]
    return ([op(o, '', x + d) for o in MOTION] + [op(o, '_1x1', sz(1, 1)) for o in MOTION] + \
        [op(o, '_1x4', sz(1, 4, lx=2)) for o in ('MOVE_TO', 'MOVE_UP', 'MOVE_DOWN', 'SET_MARGINS')] + \
        [op('SET_MARGINS', '_sb', sz(2, 4, sb=1))] + \
        [op(o, '_big', sz(260, 1) + big(260, thin=True)) for o in ('MOVE_TO', 'MOVE_LEFT', 'MOVE_RIGHT', 'LINE_END', 'LINE_HOME')] + \
        [op(o, '_bigh', sz(1, 260) + big(260, thin=True, conc=True)) for o in ('MOVE_TO', 'MOVE_UP', 'MOVE_DOWN', 'SET_MARGINS')]) + hs


PROPS['S03'] = dict(
    cases=s03, explanation=STATE + 'every margin pair. One motion with any 32-bit argument; the cursor ends where the '
    'reference puts it and nothing else changes.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260x1 and 1x260', 'histories': 'any one of the state-changing operations before, with arguments 0..3, on 2x3 or smaller', 'screen': '3x3, 1x1, 1x4 (thorough 4x5)', 'arguments': 'all 2^32 values'},
    outside=['larger screens'], assumptions=COMMON_ASSUME)

TALL = ['-DNOMARGINS', '-DFLAGS_MASK=0x40', '-DTALL=126']


def s04(tier):
    th = tier != 'quick'
    x = sz(2, 4, sb=1, free=1) if not th else sz(3, 5, lx=4, ln=6, sb=2, free=2)
    cs = [op(o, '', x + ['-DFLAGS_MASK=0x64', '-DCXMAX=X']) for o in SCROLL]
    cs += [op(o, '_1x1', sz(1, 1, sb=1)) for o in SCROLL]
    cs += [op(o, '_tall', sz(1, 131) + TALL, cost=9) for o in ('SCROLL_UP', 'SCROLL_DOWN', 'INS_LINES', 'DEL_LINES')]
    cs += [op('SCROLL_UP', '_tallsb', sz(1, 131, sb=1, free=2) + ['-DNOMARGINS', '-DFLAGS_MASK=0', '-DTALL=126'], cost=9)]
    cs += [op(o, '_tall2', sz(1, 258) + ['-DNOMARGINS', '-DFLAGS_MASK=0', '-DTALL=254'], cost=9) for o in ('SCROLL_UP', 'SCROLL_DOWN', 'INS_LINES', 'DEL_LINES')]
    cs += [op(o, '_bigh', sz(1, 260) + big(260, thin=True, conc=True)) for o in ('SCROLL_UP', 'SCROLL_DOWN', 'NEWLINE', 'INS_LINES', 'DEL_LINES')]
    hs = [hist('scroll', [o for o in CHANGE if o not in EDIT], SCROLL, sz(2, 3, xm=2, ym=3) + HD + ['-DFLAGS_MASK=0x0'], cost=9)]
    return cs + hs


PROPS['S04'] = dict(
    cases=s04, explanation=STATE + 'every margin pair. Scrolling, index, reverse index and line insertion and deletion '
    'with any 32-bit count: every row of both buffers and of the scrollback, the cursor and the margins equal the reference. '
    'A 131-row screen covers the code that scrolls more than 128 rows in parts.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '1x260, also 260 lines of scrollback', 'histories': 'any one of the state-changing operations before, with arguments 0..3, on 2x3 or smaller', 'screen': '2x4, 1x1 (thorough 3x5); 1x131 with counts above 126, 1x258 with counts above 254', 'scrollback': '0..2 lines',
            'count': 'all 2^32 values'},
    outside=['larger screens'], assumptions=COMMON_ASSUME)


def s05(tier):
    th = tier != 'quick'
    d = ['-DNOMARGINS', '-DFLAGS_MASK=0x44']
    hs = [hist('edit%d' % i, CHANGE, EDIT[i::3], sz(2, 2, xm=3, ym=2) + HD + ['-DFLAGS_MASK=0x0'], cost=9) for i in range(3)]
    return ([op(o, '', sz(3, 2) + d, cost=5) for o in EDIT] + \
        [op(o, '_alloc', sz(2, 2, lx=3, ln=3) + d) for o in EDIT] + \
        [op(o, '_1x1', sz(1, 1) + d) for o in EDIT] + \
        [op(o, '_big', WIDE) for o in EDIT] + [op(o, '_bigh', HIGH) for o in EDIT if 'SCREEN' in o or o.endswith('TO_CURSOR')] + \
        [op(o, '_5x1', sz(5, 1, lx=6) + d) for o in EDIT if 'SCREEN' not in o] + \
        ([op(o, '_3x3', sz(3, 3) + d, timeout=3000) for o in EDIT] if th else [])) + hs


PROPS['S05'] = dict(
    cases=s05, explanation=STATE + 'so every pattern of protected cells. Each erase, insert-character and '
    'delete-character operation with any 32-bit count and either protect mode changes exactly the cells the reference changes.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260x1 (reading-order operations also 1x260)', 'histories': 'any one of the state-changing operations before, with arguments 0..3, on 2x3 or smaller', 'screen': '3x2, 2x2 in a 3x3 allocation, 1x1, 5x1 (thorough 3x3)', 'count': 'all 2^32 values'},
    outside=['larger screens'], assumptions=COMMON_ASSUME)


def s06(tier):
    th = tier != 'quick'
    n = 3 if not th else 5
    d = ['-DNOMARGINS', '-DFLAGS_MASK=0x60', '-DCXMAX=0']
    cs = [op(o, '', sz(1, 3, sb=n, free=1) + d) for o in SB]
    cs += [op(o, '', sz(1, 3, sb=n, free=2) + d) for o in ('SCROLL_UP', 'NEWLINE', 'MOVE_DOWN', 'DEL_LINES', 'INS_LINES', 'SCROLL_DOWN')]
    cs += [op(o, '_one', sz(2, 2, sb=1) + d) for o in SB + ['SCROLL_UP', 'NEWLINE']]
    cs += [op(o, '_off', sz(2, 2) + d + ['-DSBMAX0']) for o in SB + ['SCROLL_UP', 'NEWLINE']]
    cs += [op('RESIZE', '', sz(2, 3, xm=3, ym=4, sb=2, free=1) + d, cost=5)]
    cs += [op('WRITE', '', sz(1, 2, sb=2, free=1) + ['-DNOMARGINS', '-DFLAGS_MASK=0x62'])]
    cs += [op(o, '_big', sz(1, 2, sb=260) + big(260, thin=o.startswith('SB_'))) for o in SB]
    cs += [op(o, '_big', sz(1, 2, sb=260, free=1) + big(260, 0x40, thin=True)) for o in ('SCROLL_UP', 'NEWLINE')]
    hs = [hist('sb', CHANGE, SB + ['SCROLL_UP'], sz(2, 2, xm=3, ym=2, sb=1, free=2) + HD + ['-DFLAGS_MASK=0x0', '-DCXMAX=0'], cost=9)]
    return cs + hs


PROPS['S06'] = dict(
    cases=s06, explanation=STATE + 'a scrollback of any fill at or below its limit viewed from any of its lines. Every '
    'operation that adds, drops or scrolls through scrollback lines: the lines, their order, contents and the view position '
    '(as line and as number) equal a first-in-first-out reference.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260 lines of scrollback', 'histories': 'any one of the state-changing operations before, with arguments 0..3, on 2x3 or smaller', 'scrollback': '0..3 lines (thorough 5), limit up to 2 above the fill', 'screen': '1x3, 2x2, 2x3', 'arguments': 'all 2^32 values'},
    outside=['longer scrollbacks'], assumptions=COMMON_ASSUME)


def s07(tier):
    th = tier != 'quick'
    f = ['-DFLAGS_MASK=0x60']
    cs = [op('RESIZE', '_2x2', sz(2, 2, xm=3, ym=3, sb=1, free=1) + f),
          op('RESIZE', '_2x2a', sz(2, 2, lx=3, ln=3, xm=4, ym=4) + f),
          op('RESIZE', '_3x3', sz(3, 3, sb=1, free=1) + f + ['-DNOMARGINS'], cost=9),
          op('RESIZE', '_1x1', sz(1, 1, xm=3, ym=3) + f),
          op('RESIZE', '_sel', sz(2, 3, xm=3, ym=4, sb=1, free=1) + f + ['-DSEL', '-DNOMARGINS', '-DCXMAX=0'], cost=9),
          op('RESIZES', '_3x1', sz(3, 1, xm=4, ym=2, sb=0, free=2) + f + ['-DNOMARGINS', '-DCXMAX=0'], cost=9),
          op('RESIZES', '_2x2', sz(2, 2, xm=3, ym=3, sb=1, free=1) + f + ['-DNOMARGINS', '-DCXMAX=0'], cost=9),
          op('RESIZE', '_tabs', sz(1, 1, xm=18, ym=1) + f + ['-DCXMAX=0'])]
    if th:
        cs += [op('RESIZE', '_3x3b', sz(3, 3, lx=4, ln=4, xm=5, ym=5, sb=2, free=2) + f + ['-DSEL'], timeout=3000)]
    cs += [op('RESIZE', '_big', sz(257, 1, xm=260, sb=0) + big(257, 0x20)),
           op('RESIZE', '_bigh', sz(1, 257, ym=260, sb=0, free=1) + big(257, 0x20, thin=True))]
    hs = [hist('resize', CHANGE, ['RESIZE'], sz(2, 2, xm=3, ym=3) + HD + ['-DFLAGS_MASK=0x20'], cost=9)]
    return cs + hs


PROPS['S07'] = dict(
    cases=s07, explanation=STATE + 'margins, scrollback, optional selection, and rows left over from earlier, larger sizes. '
    'One resize to any size within the bound, or two with a row scrolled away between them: every cell of both buffers, scrollback, cursor, margins, tab stops and '
    'selection equal the reference.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '257..260 columns or rows', 'histories': 'any one of the state-changing operations before, with arguments 0..3, on 2x3 or smaller', 'sizes': '1..4 columns and rows before and after; 1..18 columns for tab stops', 'scrollback': '0..2 lines'},
    outside=['larger sizes', 'memory exhaustion (S14)'], assumptions=COMMON_ASSUME)


def s08(tier):
    th = tier != 'quick'
    d = ['-DFLAGS_MASK=0x67', '-DALT_ONLY', '-DNOMARGINS', '-DCXMAX=X']
    x = sz(2, 2, sb=1, free=1) if not th else sz(3, 3, lx=4, ln=4, sb=1, free=1)
    ops = [o for o in ['WRITE'] + EDIT + SCROLL + ['MOVE_TO', 'SET_DEF_ATTR']]
    hs = [hist('alt', CHANGE, ['SET_FLAGS', 'RESET_FLAGS', 'RESET'], sz(2, 2, xm=2, ym=2, sb=1) + HD + ['-DFLAGS_MASK=0x20', '-DCXMAX=0'], cost=9)]
    return ([op(o, '', x + d) for o in ops] + \
        [op(o, '_any', sz(2, 2, xm=3, ym=3, sb=1, free=1) + ['-DNOMARGINS', '-DFLAGS_MASK=0x60', '-DCXMAX=X'], cost=5) for o in ('SET_FLAGS', 'RESET_FLAGS', 'RESET', 'RESIZE')] + \
        [op(o, '_big', sz(260, 1) + big(260, 0x20, thin=True)) for o in ('SET_FLAGS', 'RESET_FLAGS', 'RESET', 'ERASE_SCREEN')] + \
        [op(o, '_bigh', sz(1, 260) + big(260, 0x20, thin=True)) for o in ('SET_FLAGS', 'RESET_FLAGS', 'RESET', 'SCROLL_UP')]) + hs


PROPS['S08'] = dict(
    cases=s08, explanation=STATE + 'with the alternate screen active. Every operation that writes, erases, scrolls or moves '
    'leaves the main screen and the scrollback bit for bit unchanged; switching the flag changes only which buffer is '
    'active and keeps both buffers.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260x1, 1x260', 'histories': 'any one of the state-changing operations before, with arguments 0..3, on 2x3 or smaller', 'screen': '2x2 (thorough 3x3)', 'scrollback': '0..2 lines'},
    outside=['larger screens', 'rows of the main screen cut off by a resize while the alternate screen is active'],
    assumptions=COMMON_ASSUME)


def s09(tier):
    th = tier != 'quick'
    base = ['-DAGEING', '-DCH_MAX=0x7f', '-DCH_MIN=0x21', '-DNOMARGINS']
    x = sz(2, 2, xm=3, ym=3, sb=1, free=1, sbw=1) + ['-DCXMAX=X']
    cs = [op(o, '', x + base + ['-DFLAGS_MASK=0x7a']) for o in CHANGE]
    for o in ('SEL_START', 'SEL_TARGET', 'SEL_RESET', 'SCROLL_UP', 'SCROLL_DOWN', 'RESIZE', 'CLEAR_SB', 'SET_MAX_SB', 'INS_LINES', 'DEL_LINES'):
        cs.append(op(o, '_sel', sz(2, 2, xm=3, ym=3, sb=1, free=1) + base + ['-DFLAGS_MASK=0x40', '-DCXMAX=0', '-DSEL'], cost=5))
    cs.append(Case('pending', 's_op.c', S, ['-DH1=' + ','.join(CHANGE), '-DH2=SEL_RESET', '-DARGS=2', '-DPENDING', '-DFLAGS_MASK=0', '-DCXMAX=0'] +
                   base + sz(1, 2, xm=2, ym=2, sb=1), stubs=ST, what='an overflow that is still to be reported, then any operation'))
    for o in ('WRITE', 'INS_CHARS', 'DEL_CHARS', 'MOVE_LEFT', 'MOVE_RIGHT'):
        cs.append(op(o, '_4x1', sz(4, 1) + base + ['-DFLAGS_MASK=0x13']))
    cs += [op(o, '_big', sz(260, 1) + big(260, ascii=True, thin=True, conc=True) + ['-DAGEING']) for o in ['WRITE', 'MOVE_LEFT', 'MOVE_RIGHT'] + EDIT]
    cs += [op(o, '_bigh', sz(1, 260) + big(260, ascii=True, thin=True, conc=True) + ['-DAGEING']) for o in ROWS]
    cs += [op(o, '_bigsb', sz(1, 2, sb=260) + big(260, ascii=True, thin=True, conc=True) + ['-DAGEING']) for o in ('SB_UP', 'SB_DOWN', 'SCROLL_UP', 'CLEAR_SB')]
    return cs


PROPS['S09'] = dict(
    cases=s09, explanation=STATE + 'any ages not above the age counter, and any value of the counter including the '
    'overflow. The screen is drawn, one operation with symbolic arguments runs, and it is drawn again: every cell whose '
    'id, character, width or attributes differ reports an age above what the first drawing returned, or 0; and no reported age '
    'goes back, so that the same follows for any number of operations between two drawings. An overflow still to be reported stays so.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260x1, 1x260, 260 lines of scrollback', 'screen': '2x2, 4x1', 'scrollback': '0..2 lines', 'operations between two drawings': 'one, inductive'},
    outside=['larger screens', 'cells that were not on the screen before a resize'],
    assumptions=COMMON_ASSUME + ['the renderer redraws a cell when its age is 0 or above the last returned age (libtsm.h, gtktsm)'])


def s10(tier):
    th = tier != 'quick'
    cs = [hc('draw', 's_draw.c', sz(2, 1, sb=1) + ['-DCH_MAX=0x7f']),
          hc('narrow', 's_draw.c', sz(2, 2, sb=2, sbw=1) + ['-DCH_MAX=0x7f', '-DCH_MIN=0x21']),
          hc('wide', 's_draw.c', sz(2, 2, lx=3, ln=3, sb=2, sbw=3) + ['-DCH_MAX=0x7f', '-DCH_MIN=0x21']),
          hc('sel', 's_draw.c', sz(2, 2, sb=2) + ['-DCH_MAX=0x10ffff', '-DCH_MIN=0x21', '-DCXMAX=0', '-DSEL', '-DFLAGS_MASK=0x48'], cost=9),
          hc('sel_row', 's_draw.c', sz(3, 1, sb=1) + ['-DCH_MAX=0x10ffff', '-DCH_MIN=0x21', '-DSEL', '-DFLAGS_MASK=0x58'], cost=9)]
    cs += [hc('big', 's_draw.c', sz(260, 1) + big(260, 0x8, ascii=True)),
           hc('bigh', 's_draw.c', sz(1, 260) + big(260, 0x0, ascii=True, thin=True)),
           hc('bigsel', 's_draw.c', sz(260, 1) + big(260, 0, ascii=True, thin=2) + ['-DSEL', '-DCXMAX=0']),
           hc('bigsb', 's_draw.c', sz(1, 2, sb=260) + big(262, 0, ascii=True, **BIGSB) + ['-DSEL', '-DCXMAX=0'])]
    if th:
        cs += [hc('draw22', 's_draw.c', sz(2, 2, sb=1) + ['-DCH_MAX=0x7f'], timeout=3000),
               hc('sel33', 's_draw.c', sz(3, 3, sb=3) + ['-DCH_MAX=0x10ffff', '-DCH_MIN=0x21', '-DCXMAX=0', '-DSEL', '-DFLAGS_MASK=0x48'], timeout=3000)]
    return cs


PROPS['S10'] = dict(
    cases=s10, explanation=STATE + 'any view position, any selection. One drawing: one callback per cell in reading order '
    'whose position, id, character, length, width, attributes (with cursor, inverse mode and selection) and age equal the '
    'reference; nothing changes; the result is the age counter, or 0 once after an overflow.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260x1, 1x260, 260 lines of scrollback', 'screen': '2x1, 2x2, 3x1 (thorough 3x3)', 'scrollback': '0..2 lines, narrower, equal and wider than the screen'},
    outside=['cells holding combined symbols', 'larger screens'], assumptions=COMMON_ASSUME)


def s11(tier):
    th = tier != 'quick'
    cs = [hc('cells', 's_copy.c', sz(2, 1, sb=1) + ['-DCH_MAX=0x7f', '-DFLAGS_MASK=0x40'], cost=5),
          hc('utf8', 's_copy.c', sz(2, 1) + ['-DCH_MAX=0x10ffff', '-DFLAGS_MASK=0x0'], cost=9),
          hc('lines', 's_copy.c', sz(2, 2, lx=3, ln=3, sb=2, sbw=3) + ['-DCH_MAX=0x7f', '-DCH_MIN=0x21', '-DFLAGS_MASK=0x0', '-DWIDTH1'], cost=5),
          hc('lines4', 's_copy.c', sz(2, 2, sb=2) + ['-DCH_MAX=0x1fffd', '-DCH_MIN=0x10000', '-DFLAGS_MASK=0x0', '-DWIDTH1'], cost=5),
          hc('blank', 's_copy.c', sz(3, 1, sb=0) + ['-DCH_MAX=0x7f', '-DFLAGS_MASK=0x0'], cost=5),
          hc('narrow', 's_copy.c', sz(3, 1, sb=1, sbw=1) + ['-DCH_MAX=0x7f', '-DFLAGS_MASK=0x0', '-DWIDTH1'])]
    cs += [hc('big', 's_copy.c', sz(260, 1) + big(260, ascii=True)),
           hc('bigh', 's_copy.c', sz(1, 260) + big(260, ascii=True, l=[0, 255, 259, 260])),
           hc('bigsb', 's_copy.c', sz(1, 2, sb=260) + big(262, ascii=True, **BIGSB))]
    if th:
        cs += [hc('cells22', 's_copy.c', sz(2, 2, sb=1) + ['-DCH_MAX=0x7f', '-DFLAGS_MASK=0x40'], timeout=3000),
               hc('lines33', 's_copy.c', sz(3, 3, sb=2) + ['-DCH_MAX=0x7f', '-DCH_MIN=0x21', '-DFLAGS_MASK=0x0', '-DWIDTH1'], timeout=3000)]
    return cs


PROPS['S11'] = dict(
    cases=s11, explanation=STATE + 'a selection between any two places of scrollback and screen in either order, or scrolled '
    'out. The copied string equals the UTF-8 text of the cells in reading order, with the documented treatment of empty '
    'and continuation cells.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260x1, 1x260, 260 lines of scrollback', 'screen': '2x1, 2x2, 3x1 (thorough 3x3)', 'scrollback': '0..2 lines', 'characters': 'all code points (one row), 4-byte characters in every cell (2x2 + 2 scrollback lines), ASCII and empty cells otherwise'},
    outside=['cells holding combined symbols (copied as nothing, a documented TODO)', 'larger screens'], assumptions=COMMON_ASSUME)


def s12(tier):
    th = tier != 'quick'
    d = ['-DSEL', '-DFLAGS_MASK=0x40', '-DCXMAX=0', '-DWIDTH1', '-DCH_MAX=0x7f']
    ops = ['SCROLL_UP', 'SCROLL_DOWN', 'NEWLINE', 'MOVE_UP', 'MOVE_DOWN', 'INS_LINES', 'DEL_LINES', 'SET_MAX_SB', 'CLEAR_SB',
           'SEL_START', 'SEL_TARGET', 'SEL_RESET', 'SB_UP', 'SB_DOWN', 'RESET', 'SET_FLAGS', 'RESET_FLAGS', 'RESIZE']
    x = sz(1, 3, sb=1, free=1) if not th else sz(2, 4, sb=2, free=1)
    cs = []
    for o in ops:
        e = ['-DNOMARGINS'] if o in ('SEL_START', 'SEL_TARGET', 'SET_MAX_SB', 'CLEAR_SB', 'SB_UP', 'SB_DOWN', 'RESIZE', 'SET_FLAGS', 'RESET_FLAGS') else []
        f = ['-DXM=2', '-DYM=4'] if o == 'RESIZE' and not th else []
        cs.append(op(o, '', x + d + e + f, cost=5))
    cs += [op(o, '_sb2', sz(1, 2, sb=2) + d + ['-DNOMARGINS']) for o in ('SCROLL_UP', 'SET_MAX_SB', 'SEL_START', 'SEL_TARGET', 'CLEAR_SB')]
    cs += [op(o, '_off', sz(2, 2) + d + ['-DNOMARGINS', '-DSBMAX0']) for o in ('SCROLL_UP', 'SEL_START', 'SEL_TARGET')]
    big12 = lambda x, n, **kw: x + big(n, ascii=True, conc=True, **kw) + ['-DCXMAX=0']
    cs += [op(o, '_bigh', big12(sz(1, 260), 260, thin=2) + ['-DSEL']) for o in ('SCROLL_UP', 'SCROLL_DOWN')]
    cs += [op(o, '_bigsb', big12(sz(1, 2, sb=260), 262, l=[0, 256, 259, 260]) + ['-DSEL']) for o in ('SCROLL_UP', 'SET_MAX_SB')]
    cs += [op('SEL_START', '_bigsb', big12(sz(1, 2, sb=260), 262, l=[0, 256, 259, 260])),
           op('SEL_START', '_big', big12(sz(260, 1), 260, thin=True)),
           op('SEL_TARGET', '_big', big12(sz(260, 1), 260, l=[0, 257]) + ['-DSEL'])]
    hs = [hist('sel%d' % i, [o for o in ROWS + SB + MISC + ['RESIZE', 'RESET', 'WRITE', 'SET_MARGINS'] if o != 'SET_DEF_ATTR'], [o], sz(1, 2, xm=2, ym=2, sb=1, free=1) + ['-DARGS=2', '-DNOMARGINS', '-DFLAGS_MASK=0x0', '-DCXMAX=0', '-DSEL', '-DWIDTH1', '-DCH_MIN=0x21', '-DCH_MAX=0x7f'], cost=9) for i, o in enumerate(['SEL_START', 'SEL_TARGET', 'SEL_RESET', 'SCROLL_UP'])]
    return cs + hs


PROPS['S12'] = dict(
    cases=s12, explanation=STATE + 'every margin pair and a selection between any two places. After each operation that '
    'moves rows both endpoints are in the line that holds the text they were put on, or where the reference puts them when '
    'that line is gone; setting an endpoint maps screen positions to the lines shown.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260x1, 1x260, 260 lines of scrollback', 'histories': 'any one of the state-changing operations before, with arguments 0..3, on 2x3 or smaller', 'screen': '1x3, 1x2, 2x2 (thorough 2x4)', 'scrollback': '0..2 lines'},
    outside=['larger screens'], assumptions=COMMON_ASSUME)


def s13(tier):
    th = tier != 'quick'
    d = ['-DNOMARGINS', '-DFLAGS_MASK=0x40']
    hs = [hist('tabs', CHANGE, TABS, sz(4, 1, xm=5, ym=1) + HD + ['-DFLAGS_MASK=0x0'], cost=9)]
    return ([op(o, '', sz(6 if not th else 10, 1, lx=7 if not th else 11) + d) for o in TABS] + \
        [op(o, '_1x1', sz(1, 1) + d) for o in TABS] + [op(o, '_2x2', sz(2, 2) + d) for o in TABS] + \
        [op('RESET', '_18', sz(18, 1) + d + ['-DCXMAX=0']), op('RESET', '_big', WIDE), op('RESIZE', '_big', sz(257, 1, xm=260) + big(257)),
         op('RESET_ALL_TABS', '_big', WIDE), op('SET_TAB', '_big', WIDE), op('RESET_TAB', '_big', WIDE),
         op('TAB_LEFT', '_big', WIDE), op('TAB_RIGHT', '_big', WIDE), op('RESIZE', '_18', sz(7, 1, xm=18, ym=1) + d + ['-DCXMAX=0'])]) + hs


PROPS['S13'] = dict(
    cases=s13, explanation=STATE + 'so every pattern of tab stops. Forward and backward tabs with any 32-bit count, setting '
    'and clearing stops, reset and resize: cursor and stops equal the reference.',
    bounds={'large screens (positions and counts at and around 0, 127, 255, 256 and the ends)': '260 columns', 'histories': 'any one of the state-changing operations before, with arguments 0..3, on 2x3 or smaller', 'columns': '6 (thorough 10); 18 for the default stops', 'count': 'all 2^32 values'},
    outside=['wider screens'], assumptions=COMMON_ASSUME)

ALLOC = ['-include', HARN + '/vpalloc.h']


def al(name, d, **kw):
    return Case(name, 's_alloc.c', S, d, stubs=ST + ['vpalloc.c'], repo_defs=ALLOC, **kw)


def life(name, *d, **kw):
    return Case(name, 'v_life.c', S + ['vte', 'charsets'], list(d), stubs=['stub_width_v.c', 'vpalloc.c'], repo_defs=ALLOC, **kw)


def s14(tier):
    f = 1 if tier == 'quick' else 2
    return [Case('null', 'v_null.c', ['unicode', 'screen', 'selection', 'render', 'vte', 'charsets', 'htable', 'wcwidth'], [], shared=True, what='every public function without an object, any other arguments'),
            life('vte', '-DFAILS=%d' % f, what='create an emulator, references dropped in any order; any allocation fails'),
            life('vte_palette', '-DFAILS=%d' % f, '-DPAL', what='two palette changes; any allocation fails'),
            al('new', ['-DPART=1', '-DFAILS=%d' % f], what='create; any one allocation fails', cost=5),
            al('resize', ['-DPART=2', '-DFAILS=%d' % f], what='resize 80x24; any one allocation fails', cost=5),
            al('scroll', ['-DPART=3', '-DFAILS=2'], what='two scrolls with margins; any two allocations fail', cost=5),
            al('copy', ['-DPART=4', '-DFAILS=%d' % f], what='selection copy; any one allocation fails')]


PROPS['S14'] = dict(
    cases=s14, explanation='Screen: creation (80x24), resizing to any size between 79x23 and 82x26, scrolling with scrollback and '
    'selection copy with a symbolic choice of which allocations fail: the failure is reported as -ENOMEM, the object '
    'stays valid and unchanged, a retry works, and the last unref leaves no block allocated. '
    'Emulator: creation, references taken and dropped in any order on emulator and screen, palette changes and resets with any one allocation failing: '
    'failures are reported and leave the old palette, each object lives exactly as long as someone holds it, and every block is released in the end. '
    'Missing object: every public function with NULL and any other arguments; the same harness then links against the library built with hidden visibility, so an interface function that is not exported shows.',
    bounds={'failing allocations': '1 (scrolling 2; thorough 2)', 'sizes': '79x23..82x26, 2x3 for scrolling'},
    outside=['more failures in one call'], assumptions=['the width of a symbol is an uninterpreted function'])
