"""The emulator: real vte and an independent reference on twin screens."""
from driver import Case, HARN

V = ['vte', 'charsets', 'screen', 'selection', 'render', 'unicode', 'htable']
PROPS = {}
E_ = '0x1b'


def seq(name, *t, pre='', post='', d=(), cost=0, timeout=400, what=''):
    """template: str -> its characters, otherwise a class name"""
    el = []
    for x in t:
        if x.isupper() and len(x) > 1 and x.isalnum():
            el.append(x)
        else:
            el += [str(ord(c)) for c in x]
    defs = ['-DT=' + ','.join(el)] + list(d)
    if pre:
        defs.append('-DPRE="%s"' % esc(pre))
    if post:
        defs.append('-DPOST="%s"' % esc(post))
    return Case(name, 'v_seq.c', V, defs, stubs=['stub_width_v.c'], cost=cost, timeout=timeout, max_steps=3000000 * (20 if any('BIG' in x for x in defs) else 1),
                what=what or 'input template ' + ' '.join(repr(x) if not x.isupper() else x for x in t))


def esc(s):
    return ''.join('\\%03o' % ord(c) for c in s)



ESC = '\x1b'
CSI = '\x1b['


HIST = [CSI + '2;3r', CSI + 'r', CSI + '?6h', CSI + '?6l', CSI + '4h', CSI + '?7l', CSI + '20h', CSI + '31m', CSI + '?1049h', CSI + '?1049l', 'ABCDEF', '\n\n\n',
        CSI + '9;9H', ESC + 'M', CSI + 'L', CSI + 'P', CSI + 'J', CSI + '2J', '\t', ESC + '7', ESC + '8', CSI + 'S', CSI + '3g', CSI + 'c']


def big(x, y, cur=(0, 1, 127, 255, 257, 260), marg=None):
    return ['-DX=%d' % x, '-DY=%d' % y, '-DBIGCUR=' + ','.join(map(str, cur))] + (['-DBIGMARG=' + ','.join(map(str, marg))] if marg else [])


BIGN = ('', '0', '1', '128', '254', '255', '256', '257', '259', '260', '261', '300')
BMARG = (1, 260, 2, 255, 128, 129, 250, 258, 256, 257)


def v16(tier):
    M = ['-DMARG']
    C = ['-DCUR']
    O = '\x1b[?6h'
    return [seq('plain', CSI, 'FIN', d=C),
            seq('plain_margins', CSI, 'FIN', d=M),
            seq('one', CSI, 'DIG', 'FIN', d=C),
            seq('one_margins', CSI, 'DIG', 'FIN', d=M),
            seq('one_origin', CSI, 'DIG', 'FIN', d=M, pre=O),
            seq('plain_origin', CSI, 'FIN', d=M, pre=O),
            seq('two', CSI, 'DIG', ';', 'DIG', 'FIN'),
            seq('two_first', CSI, ';', 'DIG', 'FIN'),
            seq('two_origin', CSI, 'DIG', ';', 'DIG', 'H', d=M, pre=O),
            seq('big', CSI, 'DIG', 'DIG', 'DIG', 'FIN'),
            seq('marker', CSI, 'PAR', 'DIG', 'FIN'),
            seq('marker0', CSI, 'PAR', 'FIN'),
            seq('inter', CSI, 'DIG', 'INTM', 'FIN'),
            seq('inter2', CSI, 'INTM', 'INTM', 'FIN'),
            seq('scroll', CSI, 'DIG', 'FIN', d=['-DSB=2']),
            seq('tabs', CSI, 'DIG', 'FIN', d=['-DTABS', '-DCUR']),
            seq('alternate', CSI, 'DIG', 'FIN', pre='\x1b[?47h'),
            seq('esc', ESC, 'ESCF', 'PRT', d=['-DMARG']),
            seq('esc_cursor', ESC, 'ESCF', d=['-DCUR', '-DTABS']),
            seq('controls', 'CTL', 'A', d=['-DCUR', '-DSB=1']),
            seq('controls_margins', 'CTL', 'A', d=['-DMARG']),
            seq('protected', CSI, '?', 'DIG', 'IN0', d=['-DCUR', '-DS0="JK"']),
            seq('wide', CSI, 'MEN0', 'FIN', 'A', d=big(260, 1) + [m(0, *BIGN)]),
            seq('wide_origin', CSI, 'MEN0', ';', 'MEN0', 'IN0', 'A', pre=O, d=big(260, 1, (257,)) + [m(0, *BIGN), s_(0, 'Hfr')]),
            seq('high', CSI, 'MEN0', 'FIN', 'A', d=big(1, 260) + [m(0, *BIGN)]),
            seq('high_margins', CSI, 'MEN0', 'FIN', 'A', d=big(1, 260, (0, 127, 255, 258), BMARG) + [m(0, '', '2', '128', '255', '256', '257'), '-DSB=3']),
            seq('high_origin', CSI, 'MEN0', ';', 'MEN0', 'IN0', 'A', pre=O, d=big(2, 260, (257,), BMARG[:8]) + [m(0, *BIGN), s_(0, 'Hfr')]),
            seq('large_esc', 'MEN0', 'ESCF', 'A', d=big(260, 260, (255, 258)) + [m(0, ESC)]) if tier != 'quick' else
            seq('high_esc', 'MEN0', 'A', d=big(1, 260, (0, 128, 255, 258), BMARG) + [m(0, ESC + 'M', ESC + 'D', ESC + 'E', '\n', '\x0b')]),
            seq('histories', 'MEN0', 'MEN0', 'MEN0', 'MEN1', d=[m(0, *HIST), m(1, 'A', '\n', CSI + '2;2HB')]),
            ]



def v17(tier):
    D = ['-DLOGGED']

    def lg(c, debug=True):
        if debug:
            c.repo_defs = ['-DBUILD_ENABLE_DEBUG']
            c.defs.append('-DSOME_LOG')
        return c
    cs = [lg(seq('csi', CSI, 'ANY', 'ANY', post='A', d=D)),
          lg(seq('params', CSI, 'DIG', 'DIG', ';', 'DIG', 'FIN', post='A', d=D)),
          lg(seq('private', CSI, 'PAR', 'DIG', 'DIG', 'DIG', 'FIN', post='A', d=D)),
          lg(seq('inter', CSI, 'DIG', 'INTM', 'FIN', post='A', d=D)),
          lg(seq('many', CSI, *[';'] * 15, 'DIG', 'FIN', post='A', d=D)),
          lg(seq('colours', CSI, 'IN0', '8', ';', 'IN1', ';', 'DIG', 'DIG', 'DIG', ';', '9', 'DIG', 'DIG', 'm', post='A', d=D + [s_(0, '34'), s_(1, '25')])),
          lg(seq('esc', ESC, 'ANY', 'ANY', post='A', d=D)), lg(seq('esc3', ESC, 'INTM', 'ANY', 'PRT', post='A', d=D)),
          lg(seq('raw', 'RAW', 'RAW', 'A', d=D)),
          lg(seq('bits', CSI, '6', 'IN0', ';', 'DIG', '"p', 'RAW', 'RAW', CSI, 'n', d=D + [s_(0, '123')])),
          lg(seq('strings', ESC, 'IN0', 'ANY', ESC, 'PRT', post='A', d=D + [s_(0, 'PX^_]')])),
          lg(seq('resize', 'PRT', 'RSZ', CSI, 'DIG', 'FIN', 'SRST', 'HRST', d=D)),
          lg(hc('keys', 'v_key.c', '-DMODES=' + cl('', CSI + '61"p', CSI + '62"p'), '-DONLY_CHARS', *D)),
          lg(seq('release', CSI, 'DIG', 'ANY', 'FIN', post='A', d=D), debug=False)]
    if tier != 'quick':
        cs += [lg(seq('csi3', CSI, 'ANY', 'ANY', 'ANY', post='A', d=D), ), lg(seq('modes', CSI, '?', 'DIG', 'DIG', 'DIG', 'DIG', 'IN0', post='A', d=D + [s_(0, 'hl')]))]
    return cs



def v03(tier):
    P = [('ground', ''), ('esc', ESC), ('escint', ESC + ' '), ('escint2', ESC + '('), ('csi', CSI), ('csiparam', CSI + '2'),
         ('csipriv', CSI + '?'), ('csiint', CSI + '2!'), ('csiign', CSI + '2:'), ('csiign2', CSI + '!2'), ('dcs', ESC + 'P'),
         ('dcsparam', ESC + 'P1'), ('dcspriv', ESC + 'P?'), ('dcsint', ESC + 'P!'), ('dcspass', ESC + 'Pq'), ('dcsign', ESC + 'P:'),
         ('osc', ESC + ']'), ('osc2', ESC + ']0;x'), ('sos', ESC + 'X'), ('pm', ESC + '^'), ('apc', ESC + '_'),
         ('c1csi', '\x9b'), ('c1dcs', '\x90'), ('c1osc', '\x9d'), ('c1sos', '\x98')]
    return [seq(n, p, 'ANY', post='A\x07B') for n, p in P if p] + [seq('ground', 'ANY', 'ANY', post='A')] + \
        [seq('then_final', CSI, '25', 'ANY', 'FIN', post='A'), seq('then_final_private', CSI, '?25', 'ANY', 'FIN', post='A'),
         seq('then_final_inter', CSI, '62', 'INTM', 'ANY', 'FIN', post='A'),
         seq('then_number', CSI, '2', 'ANY', 'DIG', 'FIN', post='A'),
         seq('then_st', 'MEN0', 'ANY', 'MEN1', 'PRT', d=[m(0, ESC + 'P', ESC + 'P1', ESC + 'P!', ESC + 'Pq', ESC + 'P:', ESC + ']', ESC + 'X'), m(1, 'q' + ESC + '\\', 'q\x9c', 'q\x18', '\x07')])] + \
        [seq('long_' + n, p, 'ANY', post='A' + ESC + '\\B') for n, p in (('dcs', ESC + 'P' + 'x' * 300), ('dcspass', ESC + 'P1q' + 'x' * 300), ('sos', ESC + 'X' + 'x' * 300),
                                                              ('inter', CSI + ' ' * 300), ('escinter', ESC + ' ' * 300), ('ignored', CSI + ':' + '1' * 300))] + \
        [seq('esc_esc', ESC, 'ANY', 'ANY', post='B'), seq('csi_csi', CSI, 'ANY', 'ANY', post='B')]



def hc(name, harness, *defs, cost=0, timeout=400, what='', stubs=('stub_width_v.c',)):
    return Case(name, harness, V, list(defs), stubs=list(stubs), cost=cost, timeout=timeout, what=what)


def cl(*strs):
    """a C list of strings"""
    return ','.join('"%s"' % esc(s) for s in strs)


def m(i, *strs):
    return '-DM%d=%s' % (i, cl(*strs))


def s_(i, chars):
    return '-DS%d="%s"' % (i, esc(chars))


def v12(tier):
    k = lambda n, modes, *d, m2=None: hc(n, 'v_key.c', '-DMODES=' + cl(*modes), *(['-DMODES2=' + cl(*m2)] if m2 else []), *d)
    SRM = CSI + '12l'
    return [k('keys', ['', CSI + '?1h', ESC + '=', CSI + '20h']),
            k('keys_undo', [CSI + '?1h' + CSI + '?1l', ESC + '=' + ESC + '>', CSI + '?1h' + ESC + '=', CSI + '20h' + CSI + '20l',
                            CSI + '?1h' + ESC + '=' + CSI + '20h' + CSI + '!p']),
            k('sevenbit', [CSI + '61"p', CSI + '61"p' + ESC + '=']),
            k('eightbit', [CSI + '62"p']),
            k('echo', [SRM], '-DONLY_CHARS', '-DNO_PROT'),
            k('echo_keys', [SRM, SRM + CSI + '20h', SRM + ESC + '='], '-DNOCTRL'),
            k('twice', [''], '-DONLY_CHARS', '-DTWICE', '-DNOCTRL'),
            k('then_reply', [''], '-DONLY_CHARS', '-DPOST="%s"' % esc(CSI + '5n' + CSI + 'c')),
            ]



def v13(tier):
    k = lambda n, modes, nm, ne, lim, *d: hc(n, 'v_mouse.c', '-DMODES=' + cl(*modes), '-DNMODES=%d' % nm, '-DNEV=%d' % ne, '-DLIM=%s' % lim, *d)
    hl = [CSI + '?%d%s' % (n, c) for n in (9, 1002, 1003, 1006, 1016) for c in 'hl']
    S, P = CSI + '?1006h', CSI + '?1016h'
    B, A, X = CSI + '?1002h', CSI + '?1003h', CSI + '?9h'
    return [k('x10', [X], 1, 1, '0xffffffffu'),
            k('sgr', [S + B, S + A], 1, 1, '0xffffffffu', '-DCONC_MOD'),
            k('pixel', [P + B, P + A], 1, 1, '0xffffffffu', '-DCONC_MOD'),
            k('wide', [P + A, S + A], 1, 1, '0xffffffffu', '-DLIMY=9', '-DMOVE'),
            k('moves', [S + A, P + A, S + B, X, A + S], 1, 2, '9'),
            k('three_moves', [S + A], 1, 3, '3', '-DMOVE'),
            k('three_events', [S + A, X], 1, 3, '2', '-DEASY'),
            k('mode_between', [S + A, P + A, X, CSI + '?1003l', CSI + '?1006l'], 1, 3, '2', '-DEASY', '-DBETWEEN'),
            k('reset_moves', [S + A, CSI + '!p' + A + S, ESC + 'c' + A + S, CSI + '!p' + S + A, CSI + '!p'], 1, 3, '2', '-DEASY', '-DBETWEEN'),
            k('pairs', [''] + hl, 2, 1, '9'),
            k('triples', hl, 3, 1, '9', '-DMOVE'),
            k('reset_between', [S + A + CSI + '!p', S + A + ESC + 'c' + A + S], 1, 1, '9'),
            k('nocb', [S + A, S + B, P + A, X, X + CSI + '?9l'], 1, 1, '9', '-DNO_CB')]



def v02(tier):
    k = lambda n, N, pre='', post='', *d: hc(n, 'v_chunk.c', '-DPRE="%s"' % esc(pre), '-DPOST="%s"' % esc(post), '-DN=%d' % N, *d)
    cs = [k('two', 2), k('esc', 2, ESC), k('csi', 2, CSI, 'm'), k('csi_num', 1, CSI + '1;3', 'mA'), k('osc', 2, ESC + ']', '\x07A'),
          k('dcs', 1, ESC + 'P1', ESC + '\\A'), k('utf8', 2, '\xe2', 'A'), k('utf8_4', 2, '\xf0', '\x80A'), k('single', 2, '', '', '-DSINGLE'),
          k('sevenbit', 2, CSI + '61"p', '', '-DSINGLE'), k('eightbit', 2, CSI + '62"p', '', '-DSINGLE'),
          k('switch', 1, CSI + '61"', '\xe4A', '-DSINGLE')]
    for n, pre, rep, post in (('nul', '', '\0', ''), ('text', '', 'A', ''), ('wrap', CSI + '?7l', 'AB\r', ''), ('osc', ESC + ']', 'a', '\x07A'), ('dcs', ESC + 'P', 'x', ESC + '\\A'),
                              ('utf8', '', '\xe2\x82\xac', 'A'), ('csi', '', CSI + '1m', 'A')):
        c = k('long_' + n, 1, pre, post, '-DLEN=%d' % (66000 if n == 'nul' or tier != 'quick' else 4200), '-DREP="%s"' % esc(rep))
        c.max_steps = 300000000
        cs.append(c)
    if tier != 'quick':
        cs += [k('three', 3), k('single3', 3, '', '', '-DSINGLE'), k('csi3', 3, CSI, 'm'), k('esc3', 3, ESC, 'A')]
    return cs


DIRT = [CSI + '?6h', CSI + '4h', CSI + '31m', CSI + '?1h', CSI + '?7l', CSI + '2;3r', ESC + '7', '\x0e', ESC + '(0', CSI + '?5h', CSI + '?25l',
        CSI + '?47h', CSI + '?1049h', CSI + '3g', CSI + '?1002h' + CSI + '?1006h', CSI + '20h', CSI + '12l', ESC + '=', 'ABCDEFGHIJKLMNO', ESC + 'n',
        CSI + '7m' + ESC + '7', CSI + '?1048h', CSI + '61"p', ESC + ' G', ESC + ']0;a', CSI + '3;', ESC + 'N']
PROBE = [ESC + '8A', CSI + '?1048lA', '\x0eaa\xe1', CSI + '5;5HA', 'ABCDEFGHIJKLMNOP' + CSI + 'K', '\t' + CSI + '@', '\n\n\n\n' + CSI + 'c']


def v10(tier):
    def k(n, how, dirt, t, post='', d=()):
        D = [x.replace('-DT=', '-DD=') for x in seq(n, *dirt).defs]
        return hc(n, 'v_reset.c', '-DHOW=%d' % how, *D, *seq(n, *t, post=post).defs, *d)
    M = [m(0, *DIRT), m(1, *PROBE)]
    return [k('api', 0, [CSI, 'DIG', 'FIN'], ['PRT', CSI, 'H', 'PRT']),
            k('api_pairs', 0, ['MEN0', 'MEN2'], ['MEN1'], d=M + [m(2, *DIRT[-9:])]),
            k('esc_pairs', 1, ['MEN0', 'MEN0'], ['MEN1'], d=M),
            k('soft', 3, ['MEN0', 'MEN2'], ['MEN1'], d=M + [m(2, *DIRT[:9])]),
            k('api_any', 0, [ESC, 'ANY'], ['MEN1'], d=M),
            k('saved', 0, [CSI, 'DIG', 'm', ESC, '7'], [ESC, '8', 'PRT']),
            k('saved_colour', 0, [CSI, 'IN0', 'DIG', 'm', ESC, '7'], [ESC, '8', 'PRT'], d=[s_(0, '349')]),
            k('modes', 0, [CSI, '?', 'DIG', 'IN0'], ['MEN1'], d=[m(1, *PROBE), s_(0, 'hl')]),
            k('modes2', 0, [CSI, 'DIG', 'DIG', 'h'], ['MEN1'], d=[m(1, *PROBE)]),
            k('modes_saved', 0, [CSI, '?', 'DIG', 'IN0', ESC, '7'], [ESC, '8', 'MEN1'], d=[m(1, *PROBE), s_(0, 'hl')]),
            k('charsets', 1, [ESC, 'IN0', 'IN1', ESC, 'IN2', ESC, '7'], ['MEN1', '\xc3\xa1', 'q'], d=[s_(0, '()*+'), s_(1, '<0A'), s_(2, 'no|}~NO'),
              m(1, 'q', '\x0eq', ESC + 'Nq', ESC + 'Oq', ESC + 'nq', ESC + '|', ESC + '8q')]),
            k('after', 2, ['MEN0'], ['PRT', CSI, 'DIG', 'FIN', 'PRT'], d=[m(0, *[DIRT[i] for i in (0, 2, 5, 6, 8, 14, 20)])]),
            k('scrollback', 2, ['MEN0', 'MEN0'], ['\n', '\n', '\n', 'PRT'], d=[m(0, '\n\n\n', CSI + '?47h', CSI + '2S', 'A\nB\nC\n'), '-DSB=2'])]



def v15(tier):
    k = lambda n, part, *t, pre='', post='', d=(): hc(n, 'v_pal.c', '-DPART=%d' % part, *seq(n, *t, pre=pre, post=post).defs, *d)
    return [k('dirty%d' % i, 0, 'PRT', CSI, 'IN0', d=[s_(0, 'KJLm')], post='B' + ESC + '8C', pre=p + 'A' + ESC + '7')
            for i, p in enumerate((CSI + '31;1m', CSI + '38;2;1;2;3m' + CSI + '7m', CSI + '?1049h' + CSI + '42m', CSI + '48;5;20m'))] + \
           [k('custom', 0, CSI, '3', 'DIG', 'm', 'PRT', CSI, 'K'), k('custom_bg', 0, CSI, '1', '0', 'DIG', ';', '9', 'DIG', 'm', 'PRT', CSI, 'J'),
            k('custom_bold', 0, CSI, '1', ';', '3', 'DIG', 'm', 'PRT', CSI, 'm', 'PRT'), k('names', 1, 'PRT', CSI, '3', 'DIG', 'm', 'PRT'),
            k('names256', 1, CSI, 'IN0', '8', ';', '5', ';', 'DIG', 'DIG', 'm', 'PRT', d=[s_(0, '34')]),
            k('replace', 2, 'PRT', CSI, '9', 'DIG', 'm', 'PRT', CSI, 'J'), k('replace_reset', 2, CSI, '4', 'DIG', 'm', 'SRST', 'PRT', CSI, 'K')]



def v01(tier):
    k = lambda n, N, pre='', *d: hc(n, 'v_robust.c', '-DPRE="%s"' % esc(pre), '-DN=%d' % N, *d)
    o = ['-DX=1', '-DY=1', '-DSB=1']
    big = CSI + '99999999999;'
    q = [k('two', 2, ''), k('two_small', 2, '', *o), k('esc', 3, ESC, *o), k('csi', 3, CSI, *o), k('csi_priv', 3, CSI + '?', *o),
         k('csi_big', 2, big, '-DX=2', '-DY=2'), k('csi_many', 2, CSI + '1;' * 15, *o), k('csi_many2', 2, CSI + '1;' * 40, *o),
         k('sgr_many', 2, CSI + '38;2;1;2;' * 6, *o), k('osc', 3, ESC + ']', *o), k('osc_full', 3, ESC + ']' + 'a' * 126, *o),
         k('osc_full2', 3, ESC + ']' + 'a' * 300, *o), k('dcs', 2, ESC + 'P', *o), k('utf8', 3, '\xf0', *o), k('wide', 2, '\xe4\xb8', '-DX=2', '-DY=1'),
         k('origin', 2, CSI + '?6h' + CSI + '2;3r' + CSI, '-DCUR', '-DSB=1'), k('echo', 2, CSI + '12l', *o), k('mouse', 2, CSI + '?1006h' + CSI + '?100', *o)]
    if tier != 'quick':
        q += [k('three', 3, '', *o), k('csi4', 4, CSI, *o), k('csi_num4', 4, CSI + '2;', *o)]
    return q



def v04(tier):
    cs = [seq('sixteen', CSI, '?' + ';' * 14, 'DIG', ';', 'DIG', ';', 'DIG', 'IN0', d=[s_(0, 'hl')]),
          seq('many', CSI, '?' + ';' * 30, 'DIG', 'h', post='A'),
          seq('many_sgr', CSI, '31' + ';' * 14, 'DIG', ';', 'DIG', 'm', 'PRT'),
          seq('many256', CSI, '?' + '7;' * 256, 'DIG', 'h', post='A'),
          seq('many300', CSI, '1;' * 300, 'DIG', 'IN0', d=['-DCUR', s_(0, 'CHm')], post='A'),
          seq('digits300', CSI, '0' * 300, 'DIG', 'IN0', d=['-DCUR', s_(0, 'CBm')]),
          seq('digits300b', CSI, '1' + '0' * 300, 'DIG', 'IN0', d=['-DCUR', s_(0, 'CBd')]),
          seq('digits', CSI, 'DIG', 'DIG', 'DIG', 'DIG', 'DIG', 'DIG', 'IN0', d=['-DCUR', s_(0, 'CBb')]),
          seq('ten', CSI, *['DIG'] * 10, 'IN0', d=[s_(0, 'CB')]),
          seq('huge', CSI, '4294967', 'DIG', 'DIG', 'DIG', 'IN0', d=['-DCUR', s_(0, 'ABCDG')]),
          seq('huge2', CSI, '18446744073709551', 'DIG', 'DIG', 'DIG', ';', '4294967', 'DIG', 'DIG', 'DIG', 'H', d=['-DCUR']),
          seq('huge3', CSI, '99999999999999999999999999999999', 'DIG', 'FIN'),
          seq('zeros', CSI, '00000000', 'DIG', ';', '000', 'DIG', 'FIN'),
          seq('empty', CSI, 'IN0', 'IN0', 'IN0', 'IN0', 'IN1', d=['-DCUR', s_(0, '03;'), s_(1, 'HrJmgX')]),
          seq('empty_modes', CSI, '?', 'IN0', 'IN0', 'IN0', 'IN0', 'IN1', d=[s_(0, '07;'), s_(1, 'hl')]),
          seq('third', CSI, 'DIG', ';', 'DIG', ';', 'DIG', 'IN0', d=[s_(0, 'HrACLM')]),
          seq('place', CSI, 'PAR', 'PAR', 'PAR', 'IN0', d=[s_(0, 'hJmc')]),
          seq('inters', CSI, 'DIG', 'INTM', 'INTM', 'IN0', d=[s_(0, 'phJn')]),
          seq('controls', CSI, 'DIG', 'C0', 'DIG', 'IN0', d=[s_(0, 'AHJm')]),
          seq('forgets', CSI, '3;7', 'IN0', CSI, 'DIG', 'FIN', d=[s_(0, '\x18\x1aHm')]),
          seq('forgets_private', CSI, '?1', 'IN0', CSI, 'DIG', 'IN1', d=[s_(0, '\x18h'), s_(1, 'hlJKnc')]),
          ]
    return cs



def v05(tier):
    E = [CSI, 'K']
    st = ['', CSI + '1m', CSI + '31;44m', CSI + '38;2;1;2;3;48;2;4;5;6m', CSI + '3;4;5;7;1;92;103m', CSI + '38;5;100m', CSI + '?5h']
    cs = [seq('one', CSI, 'DIG', 'DIG', 'DIG', 'm', 'PRT', *E), seq('zero', CSI, 'm', 'PRT', pre=CSI + '1;4;31m'),
          seq('after', 'MEN0', CSI, 'DIG', 'DIG', 'm', 'PRT', *E, d=[m(0, *st)]), seq('after3', 'MEN0', CSI, '1', 'DIG', 'DIG', 'm', 'PRT', *E, d=[m(0, *st)]),
          seq('two', CSI, 'DIG', 'DIG', ';', 'DIG', 'DIG', 'm', 'A', *E),
          seq('three', CSI, 'DIG', ';', '3', 'DIG', ';', '4', 'DIG', 'm', 'PRT'),
          seq('idx', CSI, 'IN0', '8', ';', '5', ';', 'DIG', 'DIG', 'DIG', 'm', 'PRT', *E, d=[s_(0, '34')]),
          seq('idx_then', CSI, 'IN0', '8', ';', '5', ';', 'DIG', ';', 'DIG', 'DIG', 'm', 'PRT', d=[s_(0, '34')]),
          seq('rgb1', CSI, 'IN0', '8', ';', '2', ';', 'DIG', 'DIG', 'DIG', ';', '9', ';', '8', 'm', 'PRT', d=[s_(0, '34')]),
          seq('rgb2', CSI, 'IN0', '8', ';', '2', ';', '7', ';', 'DIG', 'DIG', 'DIG', ';', '8', 'm', 'PRT', d=[s_(0, '34')]),
          seq('rgb3', CSI, 'IN0', '8', ';', '2', ';', '7', ';', '9', ';', 'DIG', 'DIG', 'DIG', ';', 'DIG', 'm', 'PRT', d=[s_(0, '34')]),
          seq('rgb', CSI, 'IN0', '8', ';', '2', ';', 'DIG', ';', 'DIG', ';', 'DIG', 'm', 'PRT', d=[s_(0, '34')]),
          seq('malformed', CSI, 'IN0', '8', ';', 'IN1', ';', 'IN1', ';', 'IN1', 'm', 'PRT', d=[s_(0, '34'), s_(1, '0157;')]),
          seq('cut', CSI, '1;' * 11, 'IN0', '8', ';', 'IN1', ';', 'DIG', ';', '7', ';', 'DIG', ';', 'DIG', 'm', 'PRT', d=[s_(0, '34'), s_(1, '25')]),
          seq('cut2', CSI, '1;' * 12, 'IN0', '8', ';', 'IN1', ';', 'DIG', ';', '7', ';', 'DIG', ';', 'DIG', 'm', 'PRT', d=[s_(0, '34'), s_(1, '25')]),
          seq('cut3', CSI, '1;' * 14, 'IN0', '8', ';', 'IN1', ';', 'DIG', 'm', 'PRT', d=[s_(0, '34'), s_(1, '25')]),
          seq('cut4', CSI, '1;' * 15, 'IN0', '8', 'MEN0', 'm', 'PRT', d=[s_(0, '34'), m(0, '', ';5', ';5;7', ';2;1;2;3')]),
          seq('cut5', CSI, '1;' * 13, 'IN0', '8', 'MEN0', 'm', 'PRT', d=[s_(0, '34'), m(0, '', ';5', ';5;7', ';2;1;2;3', ';2;1', ';5;;', ';5;7;9')]),
          seq('empty', CSI, 'IN0', 'IN0', 'IN0', 'm', 'PRT', pre=CSI + '1;4;31m', d=[s_(0, '07;')]),
          seq('erase', CSI, 'DIG', 'DIG', 'm', 'MEN0', d=['-DSB=1', m(0, CSI + '2J', CSI + 'X', CSI + 'L', CSI + 'P', CSI + '@', CSI + '2S', CSI + 'T', '\n\n', ESC + 'M' * 3)]),
          seq('turn', CSI, 'DIG', 'DIG', 'm', CSI, 'DIG', 'DIG', 'm', 'A')]
    return cs



def v06(tier):
    hl = s_(1, 'hl')
    pre = ['', CSI + '?1002h' + CSI + '?1006h', CSI + '?9h', CSI + '?1003h', CSI + '?1016h' + CSI + '?1003h', CSI + '?6h' + CSI + '2;3r', CSI + '?1049h',
           CSI + '?47h', CSI + '?7l' + CSI + '4h', CSI + '?5h' + CSI + '?25l', CSI + '?1047h', CSI + '?1;5;6;8;25;42l' + CSI + '2;4;12;20h']
    return [seq('ansi', CSI, 'DIG', 'DIG', 'DIG', 'DIG', 'IN1', d=[hl]),
            seq('dec', CSI, '?', 'DIG', 'DIG', 'DIG', 'DIG', 'IN1', d=[hl]),
            seq('ansi_after', 'MEN0', CSI, 'DIG', 'DIG', 'IN1', 'PRT', d=[hl, m(0, *pre)]),
            seq('dec_after', 'MEN0', CSI, '?', 'DIG', 'DIG', 'IN1', 'PRT', d=[hl, m(0, *pre)]),
            seq('dec_after4', 'MEN0', CSI, '?10', 'DIG', 'DIG', 'IN1', 'PRT', d=[hl, m(0, *pre)]),
            seq('dec_two', CSI, '?', 'DIG', ';', 'DIG', 'IN1', 'PRT', d=[hl]),
            seq('dec_two4', CSI, '?10', 'DIG', 'DIG', ';', '10', 'DIG', 'DIG', 'IN1', 'PRT', d=[hl]),
            seq('undo', CSI, '?', 'DIG', 'DIG', 'h', 'PRT', CSI, '?', 'DIG', 'DIG', 'l', 'PRT'),
            seq('alternate', 'MEN0', 'PRT', 'MEN0', 'PRT', 'MEN0', d=[m(0, *[CSI + '?%d%s' % (n, c) for n in (47, 1047, 1048, 1049) for c in 'hl']), '-DSB=1']),
            seq('insert', CSI, '4', 'IN1', 'PRT', 'PRT', d=[hl, '-DCUR']),
            seq('wrap', CSI, '?7', 'IN1', 'PRT', 'PRT', d=[hl, '-DCUR']),
            seq('newline', CSI, '20', 'IN1', 'IN2', d=[hl, s_(2, '\n\x0b\x0c\r'), '-DCUR']),
            seq('origin', CSI, '?6', 'IN1', CSI, 'DIG', ';', 'DIG', 'H', 'PRT', d=[hl, '-DMARG']),
            seq('nocb', CSI, '?10', 'DIG', 'DIG', ';', '10', 'DIG', 'DIG', 'IN1', 'PRT', d=[hl, '-DNO_CB'])]


SAVE = [ESC + '7', CSI + '?1048h', CSI + '?1049h', ESC + '7' + CSI + '?1048h']
REST = [ESC + '8', CSI + '?1048l', CSI + '?1049l', CSI + '?1048l' + ESC + '8']
OPS = ['', CSI + 'H', CSI + '3;4H', '\n\n', CSI + '1;31m', CSI + '7;38;2;1;2;3m', '\x0e', ESC + 'n', ESC + '|', ESC + '(0', ESC + ')0', CSI + '?6h',
       CSI + '2;3r', CSI + '2;3r' + CSI + '?6h', CSI + '?7l', CSI + '?47h', CSI + '!p', ESC + 'N', 'WXYZ', CSI + '?6l', CSI + 'r']


def v07(tier):
    M = [m(0, *SAVE), m(1, *OPS), m(2, *REST)]
    return [seq('between', 'MEN0', 'MEN1', 'MEN1', 'MEN2', 'q', d=M),
            seq('before', 'MEN1', 'MEN0', 'MEN1', 'MEN2', 'q', d=M),
            seq('unsaved', 'MEN1', 'MEN1', 'MEN2', 'PRT', d=M),
            seq('cursor', 'MEN0', 'MEN1', 'MEN2', 'q', d=M + ['-DCUR']),
            seq('margins', 'MEN1', 'MEN0', 'MEN1', 'MEN2', d=[m(0, ESC + '7', CSI + '?1048h'), m(2, ESC + '8', CSI + '?1048l'), '-DMARG',
                m(1, '', CSI + '?6h', CSI + '2;2H', CSI + '?6h' + CSI + '2;2H', CSI + 'r', CSI + '?6l')]),
            seq('shrink', 'MEN1', 'MEN0', 'RSZ', 'MEN2', 'PRT', d=[M[0], M[2], m(1, '', CSI + '9;9H', CSI + '?6h')]),
            seq('twice', 'MEN0', 'MEN1', 'MEN2', 'MEN1', 'MEN2', d=[m(0, *SAVE[:3]), m(1, *OPS[:14]), m(2, *REST[:3])]),
            seq('wide', 'MEN0', 'MEN1', 'MEN2', 'q', d=big(260, 1) + [m(0, *SAVE[:3]), m(1, CSI + 'H', CSI + '130G', CSI + '258G', CSI + '300CA', CSI + '?7l'), M[2]]),
            seq('high', 'MEN0', 'MEN1', 'MEN2', 'q', d=big(1, 260) + [m(0, *SAVE[:3]), m(1, CSI + 'H', CSI + '258d', CSI + '2;257r' + CSI + '?6h', '\n', CSI + '?6h'), M[2]]),
            seq('shifts', 'MEN1', 'MEN2', ESC, '7', 'MEN1', 'MEN2', ESC, '8', 'GLC', 'GRC',
                pre=ESC + ')B' + ESC + '*0' + ESC + '+<', d=[m(1, '', '\x0e', ESC + 'n', ESC + 'o'), m(2, '', ESC + '}', ESC + '|', ESC + '~')]),
            seq('sgr', CSI, 'DIG', 'DIG', 'm', ESC, '7', CSI, 'DIG', 'DIG', 'm', ESC, '8', 'PRT', CSI, 'K')]



def v08(tier):
    D = [s_(0, '()*+'), s_(1, 'B0<')]
    sh = ['', '\x0e', '\x0f', ESC + 'n', ESC + 'o', ESC + '~', ESC + '}', ESC + '|']
    ss = [ESC + 'N', ESC + 'O', '\x8e', '\x8f']
    return [seq('gl', ESC, 'IN0', 'IN1', 'MEN0', 'GLC', 'GLC', d=D + [m(0, *sh)]),
            seq('gr', ESC, 'IN0', 'IN1', 'MEN0', 'GRC', 'GRC', d=D + [m(0, *sh)]),
            seq('two', ESC, 'IN0', 'IN1', ESC, 'IN0', 'IN1', 'MEN0', 'GLC', 'GRC', d=D + [m(0, *sh)]),
            seq('shifts', ESC, 'IN0', 'IN1', 'MEN0', 'MEN0', 'GLC', 'GRC', d=D + [m(0, *sh)]),
            seq('single', ESC, 'IN0', 'IN1', 'MEN1', 'GLC', 'GLC', d=D + [m(1, *ss)]),
            seq('single_gr', ESC, 'IN0', 'IN1', 'MEN1', 'GRC', 'GLC', d=D + [m(1, *ss)]),
            seq('single_locking', ESC, 'IN0', 'IN1', 'MEN0', 'MEN1', 'PRT', 'PRT', d=D + [m(0, *sh), m(1, *ss)]),
            seq('single_ctl', ESC, '*0', 'MEN1', 'ANY', 'GLC', d=[m(1, *ss)]),
            seq('unicode', ESC, 'IN0', 'IN1', 'MEN0', 'UPR', d=D + [m(0, *sh)]),
            seq('any', 'MEN0', 'ANY', d=[m(0, *[ESC + g + c + s for g, s in zip('()*+', ['', '\x0e', ESC + 'n', ESC + 'o']) for c in '0<'])]),
            seq('reset', ESC, 'IN0', 'IN1', 'MEN0', 'MEN1', 'GLC', 'GRC', d=D + [m(0, *sh), m(1, CSI + '!p', ESC + 'c')]),
            seq('unknown', ESC, 'INTM', 'ESCF', 'GLC', 'GRC')]



def v09(tier):
    end = ['\x07', ESC + '\\', '\x9c', '\x18', '\x1a', ESC + '[A', '\x9b1A', ESC + ']x\x07', '\x9dy\x07', ESC + 'Px' + ESC + '\\', '\x85']
    M = m(0, *end)
    cs = [seq('body', ESC, ']', 'BODY', 'BODY', 'MEN0', d=[M]),
          seq('body3', ESC, ']', 'BODY', 'BODY', 'BODY', '\x07'),
          seq('any', ESC, ']0;a', 'ANY', 'ANY', d=[], post='b\x07X'),
          seq('c1', '\x9d', 'ANY', 'MEN0', d=[M]),
          seq('two', ESC, ']', 'BODY', 'MEN0', ESC, ']', 'BODY', 'MEN0', d=[M]),
          seq('nocb', ESC, ']', 'ANY', 'MEN0', d=[M, '-DNO_CB']),
          seq('screen', ESC, ']0;', 'BODY', 'BODY', 'MEN0', 'A', d=[m(0, *end[:5]), '-DCUR'])]
    for n in (122, 124, 125, 126, 127, 128, 300):
        cs.append(seq('long%d' % n, 'BODY', 'BODY', 'BODY', '\x07', pre=ESC + ']' + 'a' * n))
    return cs



def v11(tier):
    B = ['-DX=12', '-DY=11', '-DCUR']
    O = CSI + '?6h'
    mk = m(0, '', CSI + '3;7r', CSI + '3;7r' + O, CSI + '2;10r' + O, O, CSI + '?1049h', ESC + ' G', CSI + '61"p', CSI + '62;1"p', CSI + '12l')
    return [seq('cursor', CSI, '6n', d=B), seq('cursor_margins', 'MEN0', CSI, '6n', d=[mk] + B[:2]),
            seq('cursor_moves', 'MEN0', CSI, 'DIG', ';', '1', 'DIG', 'H', CSI, '6n', d=[mk] + B[:2]),
            seq('cursor_wide', 'MEN0', CSI, '6n', d=big(260, 2, (0, 1, 8, 9, 98, 99, 100, 127, 254, 255, 256, 258, 259, 260)) + [m(0, '', CSI + '1;2r', O)]),
            seq('cursor_high', 'MEN0', CSI, '6n', d=big(2, 260, (0, 8, 9, 98, 99, 127, 254, 255, 256, 258, 259), BMARG) + [m(0, '', O)]),
            seq('cursor_wrap', 'PRT', 'PRT', CSI, '6n', d=['-DCUR']),
            seq('origin', CSI, '6n', pre=O, d=['-DMARG', '-DCUR']),
            seq('status', 'MEN0', CSI, 'DIG', 'DIG', 'DIG', 'n', d=[mk]), seq('status_private', CSI, 'PAR', 'DIG', 'IN0', d=[s_(0, 'nc')]),
            seq('attributes', 'MEN0', CSI, 'MEN1', 'c', d=[mk, m(1, '', '0', '1', '>', '>0', '>1', ';', '0;', '?', '=', '!', '00', '0;0')]),
            seq('id', 'MEN0', ESC, 'ESCF', d=[mk]), seq('controls', 'MEN0', 'CTL', d=[mk]),
            seq('order', 'MEN1', 'MEN1', 'MEN1', d=[m(1, CSI + '5n', CSI + '6n', CSI + 'c', CSI + '>c', '\x05', ESC + 'Z', '\x9a', 'A')])]



def v14(tier):
    P7, P8 = CSI + '61"p', CSI + '62"p'
    L = '\xc3\xe0\xe4\xed\xef\xf0\xf1\xf4'
    return [seq('raw3', 'RAW', 'RAW', 'RAW'), seq('lead', 'RAW0', 'RAW', 'RAW', 'RAW', d=[s_(0, L)]),
            seq('lead4', 'RAW0', 'RAW', 'RAW', 'RAW', 'RAW', d=[s_(0, '\xf0\xf4')]),
            seq('encodings', 'ANY', 'ANY'),
            seq('after_garbage', 'RAW', 'RAW', 'A', 'A', 'ANY'),
            seq('seven', 'RAW', 'RAW', pre=P7), seq('eight', 'RAW', 'RAW', pre=P8),
            seq('seven_seq', 'RAW', '[', 'DIG', 'RAW', pre=P7), seq('eight_seq', 'RAW', 'DIG', 'RAW', pre=P8), seq('eight_csi', '\x9b', 'DIG', 'RAW', pre=P8),
            seq('enter', CSI, '6', 'DIG', ';', 'DIG', 'INTM', 'p', 'RAW', 'RAW'), seq('leave', 'MEN0', 'RAW', 'RAW', d=[m(0, P7 + CSI + '!p', P8 + ESC + 'c', P8 + P7, P7 + P8, P8 + CSI + 'p')]),
            seq('osc_eight', '\x9d', 'RAW', 'RAW', 'IN0', pre=P8, d=[s_(0, '\x07\x9c')]), seq('gr_eight', ESC, 'IN0', 'IN1', 'MEN0', 'RAW', pre=P8, d=[s_(0, '()*+'), s_(1, 'B0<'), m(0, '', ESC + '~', ESC + '}', ESC + '|')]),
            seq('srst', 'RAW', 'SRST', 'RAW', 'RAW')]



REF = ('The real emulator on one screen and an independent reference emulator (harness/v_ref.h, written from the ECMA-48/DEC/xterm '
       'definitions, driving a second screen through the screen operations decided by S01-S14) get the same input; at the end both '
       'buffers, scrollback, cursor, margins, tabs, screen modes, emulator modes, bytes sent and callback logs are asserted equal. ')
ASM = ['the screen operations themselves are right (S01-S14)', 'characters have width 1 or 2 as in stub_width_v.c (U04 decides the width function)',
       'malloc succeeds', 'national replacement character sets (documented TODO in the code) and escape sequences with several intermediates are left open']
SZ = {'large screens': '260 columns or rows where the screen size matters (V07, V11, V16), at places and counts around 127, 255 and 256', 'screen': '4x3, cells filled and partly protected, cursor 1,1 or every position where stated (-DCUR)'}
OUT = ['longer histories than the templates', 'larger screens (the emulator passes positions on to the screen operations)']


def deeper(i):
    """thorough tier: longer templates"""
    st = [ESC, ESC + ' ', CSI, CSI + '2', CSI + '?', CSI + '2!', CSI + '2:', ESC + 'P', ESC + 'P1', ESC + 'P!', ESC + 'Pq', ESC + ']', ESC + ']0;x', ESC + 'X', '\x9b', '\x90', '\x9d']
    sh = ['', '\x0e', '\x0f', ESC + 'n', ESC + 'o', ESC + '~', ESC + '}', ESC + '|']
    big_ = ['-DX=6', '-DY=5']
    return {
        'V03': lambda: [seq('deep%d' % n, x, 'ANY', 'ANY', post='A\x07B', timeout=6000) for n, x in enumerate(st)],
        'V04': lambda: [seq('deep', CSI, 'PAR', 'PAR', 'PAR', 'PAR', 'FIN', timeout=6000),
                        seq('deep2', CSI, 'PAR', 'PAR', 'PAR', 'PAR', 'PAR', 'IN0', timeout=6000, d=[s_(0, 'hJmcHr')])],
        'V05': lambda: [seq('deep', CSI, 'DIG', 'DIG', ';', 'DIG', 'DIG', ';', 'DIG', 'DIG', 'm', 'A', timeout=6000),
                        seq('deep_rgb', CSI, 'IN0', '8', ';', '2', ';', 'DIG', 'DIG', 'DIG', ';', 'DIG', 'DIG', 'DIG', ';', 'DIG', 'm', 'PRT', timeout=6000, d=[s_(0, '34')])],
        'V06': lambda: [seq('deep', CSI, '?', 'DIG', 'DIG', ';', 'DIG', 'DIG', 'IN1', 'PRT', d=[s_(1, 'hl')], timeout=6000),
                        seq('deep_after', 'MEN0', 'MEN0', CSI, '?', 'DIG', 'DIG', 'DIG', 'DIG', 'IN1', 'PRT', timeout=6000,
                            d=[s_(1, 'hl'), m(0, *[CSI + '?%d%s' % (n, c) for n in (6, 7, 9, 47, 1002, 1003, 1006, 1016, 1048, 1049) for c in 'hl'])])],
        'V07': lambda: [seq('deep', 'MEN1', 'MEN1', 'MEN0', 'MEN1', 'MEN1', 'MEN2', 'q', d=[m(0, *SAVE[:3]), m(1, *OPS), m(2, *REST[:3])], timeout=9000),
                        seq('deep_cursor', 'MEN1', 'MEN0', 'MEN1', 'MEN2', 'q', d=[m(0, *SAVE), m(1, *OPS), m(2, *REST), '-DCUR'] + big_, timeout=6000)],
        'V08': lambda: [seq('deep', ESC, 'IN0', 'IN1', ESC, 'IN0', 'IN1', 'MEN0', 'MEN0', 'GLC', 'GRC', d=[s_(0, '()*+'), s_(1, 'B0<'), m(0, *sh)], timeout=9000)],
        'V09': lambda: [seq('deep', ESC, ']', 'BODY', 'BODY', 'BODY', 'MEN0', 'MEN1', d=[m(0, '\x07', ESC + '\\', '\x9c', '\x18', '\x1a', ESC + '[A'), m(1, 'A', ESC + ']b\x07', CSI + 'c')], timeout=6000)],
        'V11': lambda: [seq('deep', CSI, 'PAR', 'PAR', 'PAR', 'FIN', d=['-DCUR'], timeout=6000), seq('deep_order', *['MEN1'] * 4, timeout=6000,
                        d=[m(1, CSI + '5n', CSI + '6n', CSI + 'c', CSI + '>c', '\x05', ESC + 'Z', '\x9a', 'A', CSI + '?6h', CSI + '2;3r')])],
        'V14': lambda: [seq('deep', 'RAW', 'RAW', 'RAW', 'RAW', timeout=9000), seq('deep8', 'RAW', 'RAW', 'RAW', pre=CSI + '62"p', timeout=6000),
                        seq('deep7', 'RAW', 'RAW', 'RAW', pre=CSI + '61"p', timeout=6000)],
        'V16': lambda: [seq('deep', *['MEN0'] * 4, 'MEN1', d=[m(0, *HIST), m(1, 'A', '\n', CSI + '2;2HB')], timeout=12000),
                        seq('deep_one', CSI, 'DIG', 'FIN', d=['-DCUR', '-DSB=2'] + big_, timeout=6000),
                        seq('deep_margins', CSI, 'DIG', 'FIN', d=['-DMARG', '-DCUR'] + big_, timeout=9000),
                        seq('deep_origin', CSI, 'DIG', ';', 'DIG', 'FIN', d=['-DMARG'] + big_, pre=CSI + '?6h', timeout=9000),
                        seq('deep_esc', ESC, 'ESCF', 'PRT', d=['-DMARG', '-DCUR'] + big_, timeout=9000)],
    }.get(i, lambda: [])()


def prop(i, f, ex, bounds, outside=(), asm=()):
    PROPS[i] = dict(cases=lambda tier: f(tier) + (deeper(i) if tier != 'quick' else []), explanation=ex, bounds=bounds, outside=list(outside) or OUT, assumptions=list(asm) or ASM)


prop('V01', v01, 'After each parser-state prefix (ground, ESC, CSI, private CSI, huge numbers, 15 and 40 parameters, SGR overflow, OSC empty/full/over-full, '
     'DCS, half a UTF-8 character, origin mode with margins, local echo, mouse) every string of 2-3 arbitrary bytes: every load, store, index and '
     'shift is checked by the solver, then the screen invariants and callback contracts.',
     {'bytes': '2-3 arbitrary after each of 18 prefixes (thorough: up to 4)', 'screen': '1x1 to 4x3, scrollback 0/1'},
     ['longer arbitrary strings: V02-V16 continue them in structured form', 'larger screens'], ASM[2:3])
prop('V02', v02, 'One emulator gets prefix + arbitrary bytes + suffix in one call, a second one gets the same split at every place, or byte by byte with '
     'empty calls in between; screens, modes, replies and callbacks are asserted equal.',
     {'bytes': '2 arbitrary (thorough: 3) in each of 12 contexts', 'split': 'every position', 'long input': '66000 ignored bytes, 4200 bytes (thorough 66000) of text, strings, UTF-8, control sequences in one call and in two, then any byte'}, ['longer strings'], ASM[2:3])
prop('V03', v03, REF + 'Each parser state (25 prefixes) followed by any Unicode character, then letters and controls that reveal the state reached.',
     dict(SZ, characters='any one after each state (also 300 characters into a string or sequence), any two from ground, ESC and CSI'))
prop('V04', v04, REF + 'Templates with symbolic digits, separators, markers, intermediates and finals around the 16-parameter limit, 2^16, 2^32 and 2^64 '
     'values, leading zeros, omitted parameters, sequences after abandoned ones.', dict(SZ, parameters='up to 301', digits='up to 301, the critical ones symbolic'))
prop('V05', v05, REF + 'SGR with symbolic one- to three-digit parameters, all pairs of two-digit ones, 38/48 forms complete, cut by the end, cut by the '
     'parameter limit and malformed, after a menu of previous attributes; then printing and erasing.', dict(SZ, parameters='1-3 symbolic (up to 16 in total)'))
prop('V06', v06, REF + 'h/l with all numbers 0..9999, pairs in the mouse range, triples of alternate-screen switches, after a menu of 12 previous modes.',
     dict(SZ, numbers='0..9999, one or two per sequence'))
prop('V07', v07, REF + 'All sequences operation-save-operation-restore (and save-op-op-restore, op-op-restore, save-op-restore-op-restore) over menus of 4 '
     'saves, 21 operations, 4 restores; all cursor positions, margins, and screen sizes after the save.', dict(SZ, history='3-5 operations'))
prop('V08', v08, REF + 'One or two designations (12 each), up to two of 8 locking shifts, single shifts, then one or two symbolic characters.', dict(SZ, history='up to 4 sequences and 2 characters'))
prop('V09', v09, REF + 'Symbolic body characters, 11 endings, strings filled to 122..128 and 300 bytes before up to three symbolic characters of 1-4 bytes, '
     'consecutive strings, no callback.', dict(SZ, body='up to 3 symbolic characters after up to 300 fixed ones'))
prop('V10', v10, 'After any pair from a menu of 27 state-changing sequences (or an arbitrary escape sequence, or CSI digit final) and a reset, the emulator is '
     'compared with a new reference on a new screen, at once and after probe sequences that reveal hidden state. ' + REF,
     dict(SZ, history='2 of 27 sequences, then 1 of 7 probes'), asm=ASM + ['the alternate buffer contents and the scrollback limit are not part of the promise'])
prop('V11', v11, REF + 'Requests with symbolic parameters, markers and finals at every cursor position, with margins and origin mode.',
     dict(SZ, screen='12x11 for positions, else 4x3'))
prop('V12', v12, 'tsm_vte_handle_keyboard with symbolic keysym, ascii, modifiers and character against a table of the xterm/DEC encodings, per mode menu; '
     'with local echo the reference processes what was sent. ' + REF,
     {'key': 'all 2^32 keysyms, ascii values, 32 modifier sets, all characters', 'modes': '11 mode prefixes, backspace setting', 'keys': '1-2 in a row'},
     ['longer sequences of keys'], ASM + ['the character is a Unicode scalar value or TSM_VTE_INVALID, as the interface asks for'])
prop('V13', v13, 'Mouse events with symbolic 32-bit coordinates, button, modifiers, event kind, after every sequence of up to three mode changes; ' + REF,
     {'coordinates': 'all 32-bit (below 2^32-1)', 'mode changes': 'up to 3', 'events': 'up to 3, also with a mode change before each'}, ['longer event sequences'],
     ASM + ['one event per call; button 0,1,2,4,5; modifiers shift/alt/control bits'])
prop('V17', v17, 'The emulator and its screen, compiled with debug messages, with a log function installed that formats every message. ' + REF,
     dict(SZ, input='the templates listed, 1-4 symbolic bytes'), ['messages of the draw function'], ['integers in messages fit 32 bits'])
prop('V14', v14, REF + 'Raw symbolic bytes in UTF-8, 7-bit and 8-bit mode, across switches and resets; the reference contains its own RFC 3629 decoder.',
     dict(SZ, bytes='2-4 symbolic'))
prop('V15', v15, 'Custom palettes with 54 symbolic colour bytes, all pairs of palette names, replacement and removal in use, against the published palette values. ' + REF,
     dict(SZ, palettes='all custom values; all 11x11 pairs of names'))
prop('V16', v16, REF + 'Every final character with up to two symbolic parameters, markers and intermediates, every escape and control character, from every '
     'cursor position, margin pair and tab pattern listed; all triples from a menu of 24 functions.', dict(SZ, parameters='0-2, up to three digits'))
