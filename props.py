"""What each property's check runs: harness entries, language standards, bounds."""
import itertools
CORE = ['rt_core.cpp', 'rt_nodes.cpp', 'rt_libc.c', 'rt_wchar.c']
PROPS, LEVEL, BOUNDS, ASSUME, BUDGET, _J = [], {}, {}, {}, {}, {}
BASE_ASSUME = ['the compiler front end (clang 18, -O1) and libstdc++ 13 headers are part of the checked program; libsupc++/libc functions outside headers are models in rt/ (see DESIGN.md)', 'allocation never fails', 'natively replayed samples are compiled by g++ 13 from the same sources']
def assumptions(p): return BASE_ASSUME + ASSUME.get(p, [])
def prop(pid, bounds, level='model_checking', assume=()):
    def deco(f): PROPS.append(pid); _J[pid] = f; BOUNDS[pid] = bounds; LEVEL[pid] = level; ASSUME[pid] = list(assume); return f
    return deco
def J(src, entry, std=20, params=None, covers=(), time=120, flags=(), rt=CORE, opts=(), weight=1, samples=2):
    return dict(src=src, entry=entry, std=std, params=dict(params or {}), covers=list(covers), time=time, flags=list(flags), rt=list(rt), opts=list(opts), weight=weight, samples=samples)
def jobs(pid, tier): return list(_J[pid](tier == 'thorough'))
NOW = ['rt_core.cpp', 'rt_nodes.cpp', 'rt_libc.c']
STDS = (14, 17, 20)

# ---------------------------------------------------------------- Unicode
CONV = ['8to16', '8to32', '16to8', '16to32', '32to8', '32to16']; CONV20 = ['c8to16', 'c8to32', '16toc8', '32toc8']; CONVW = ['8tow', 'wto8', '16tow', 'wto16']
@prop('P01', 'every sequence of up to 3 (quick) / 4 (thorough) arbitrary scalar values, alone and inside ASCII runs of 0..33 units; char, char8_t, wchar_t, char16_t, char32_t elements')
def p01(deep):
    for c in CONV:
        for k in ((0, 1, 2, 3, 4) if deep else (0, 1, 3)): yield J('unicode', 'p01_' + c, 20, dict(K=k), ['checked'], weight=k, time=600)
        for pre, post in ([(7, 9), (16, 17), (33, 1), (0, 16), (15, 0), (8, 8), (31, 33)] if deep else [(7, 9), (16, 17), (33, 3)]): yield J('unicode', 'p01_' + c, 20, dict(K=2, pre=pre, post=post), ['checked'], weight=2)
        for std in (14, 17): yield J('unicode', 'p01_' + c, std, dict(K=2), ['checked'])
    for c in CONV20 + CONVW: yield J('unicode', 'p01_' + c, 20, dict(K=3 if deep else 2), ['checked'])
@prop('P02', 'every sequence of up to 4/5 arbitrary UTF-8 units or 3/4 UTF-16/32 units, alone and inside ASCII runs of 0..33 units; reads outside the exact-size buffer are violations')
def p02(deep):
    for c in CONV + CONV20 + CONVW:
        stds = STDS if c in CONV else (20,); k8 = (1, 2, 3, 4, 5, 6) if deep else (1, 2, 4); k16 = (1, 2, 3, 4, 5) if deep else (1, 3)
        cov = ['checked', 'ill-formed unit']
        for k in (k8 if c.startswith(('8', 'c8')) else k16): yield J('unicode', 'p02_' + c, 20, dict(K=k), cov, weight=k, time=600)
        yield J('unicode', 'p02_' + c, 20, dict(K=0), ['checked'])
        for std in stds:
            if std != 20: yield J('unicode', 'p02_' + c, std, dict(K=3 if c.startswith(('8', 'c8')) else 2), cov)
        for pre, post in ([(7, 2), (16, 1), (33, 0), (0, 20), (15, 15)] if deep else [(7, 2), (16, 1), (0, 20)]): yield J('unicode', 'p02_' + c, 20, dict(K=3 if c.startswith(('8', 'c8')) else 2, pre=pre, post=post), cov, weight=2)
STRF = ['str_c', 'wstr_w', 'u16str_16', 'u32str_32', 'str_w', 'str_16', 'str_32', 'wstr_c', 'wstr_16', 'wstr_32', 'u16str_c', 'u16str_w', 'u16str_32', 'u32str_c', 'u32str_w', 'u32str_16']; S3 = ['-DHX_STRINGS']; SAME = ('str_c', 'wstr_w', 'u16str_16', 'u32str_32'); STRF20 = ['u8str_8', 'str_8', 'wstr_8', 'u8str_c', 'u8str_w', 'u8str_16', 'u8str_32', 'u16str_8', 'u32str_8']
SHORTW = ['-fshort-wchar', '-DPLUTO_UTILS_HAS_32_BIT_WCHAR=0']
@prop('P03', 'every text of up to 3/4 arbitrary source units (NUL included), alone and inside ASCII runs; both call forms; 32-bit wchar_t and (-fshort-wchar) 16-bit wchar_t')
def p03(deep):
    for f in STRF + STRF20:
        k = 3 if f.endswith(('_c', '_8')) else 2
        for kk in ((0, 1, k, k + 1) if deep else (0, k)): yield J('unicode', 'p03_' + f, 20, dict(K=kk), ['checked'], weight=kk, flags=S3)
        yield J('unicode', 'p03_' + f, 20, dict(K=2, pre=17, post=3), ['checked'], flags=S3)
        if f in STRF:
            for std in (14, 17): yield J('unicode', 'p03_' + f, std, dict(K=2), ['checked'], flags=S3 if f in SAME or std == 17 else [])
        yield J('unicode', 'p03_' + f, 20, dict(K=2), ['checked'], flags=SHORTW + S3, rt=NOW)

# ---------------------------------------------------------------- digits, platform, range, stopwatch, scope
DG = ['bool', 'char', 'schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'wchar', 'char16', 'char32']
@prop('P04', 'every value of every built-in integer type (no bound: the widths are the types\' own)')
def p04(deep):
    for std in STDS:
        for t in DG + (['char8'] if std == 20 else []):
            for fn in range(3): yield J('digits', 'p04_' + t, std, dict(fn=fn), ['checked'])
@prop('P30', 'every path text of up to 6 (quick) / 8 (thorough) arbitrary characters, also inside longer texts; file_name only, on this platform')
def p30(deep):
    for k in range(0, 9 if deep else 7): yield J('plat', 'p30_any', 20, dict(K=k), ['checked'], weight=k)
    for pre, post in ((1, 30), (17, 3), (20, 0), (5, 40)): yield J('plat', 'p30_any', 20, dict(K=5 if deep else 4, pre=pre, post=post), ['checked'], weight=4)
    for std in (14, 17): yield J('plat', 'p30_any', std, dict(K=4), ['checked'])
@prop('P16', 'all pairs and triples of ranges with begin <= end over eight integer types, pointers and a user-defined ordered type (no bound on the values)')
def p16(deep):
    for t in ['int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'schar', 'ushort', 'user', 'ptr']:
        for std in (STDS if t in ('int', 'ulong', 'user') or deep else (20,)):
            yield J('range', 'p16_laws_' + t, std, {}, ['checked', 'non-empty'])
            if t != 'ptr': yield J('range', 'p16_trans_' + t, std, {}, ['checked', 'chain'])
            if t not in ('ptr', 'user'): yield J('range', 'p16_size_' + t, std, {}, ['checked'])
@prop('P17', 'every sequence of up to 5 (quick) / 7 (thorough) operations after either construction, every clock reading within 2^56 ns, clocks that go backwards included')
def p17(deep):
    for std in STDS:
        for n in ((5, 7) if deep and std == 20 else (5,)): yield J('watch', 'p17_ops', std, dict(N=n), ['checked'], time=700, weight=n)
@prop('P18', 'every elapsed time up to 2^62 ns for the unit conversions, up to 2^20 hours for the parts, up to 2^40 ns and any rollover up to 2^10 for count(rollover)')
def p18(deep):
    for std in (STDS if deep else (20,)):
        for u in range(6): yield J('watch', 'p18_units', std, dict(u=u, bits=62), ['checked'])
        for f in range(6): yield J('watch', 'p18_parts', std, dict(part=f), ['checked'])
        yield J('watch', 'p18_rollover', std, {}, ['checked'])
        if deep: yield J('watch', 'p18_rollover', std, dict(bits=48, rbits=16), ['checked'], time=600)
@prop('P21', 'scopes with 0..3 tasks (2 in the cross products) of six kinds - plain, throwing (two exception types), empty, catching internally, adding another task - left normally and by an exception, directly, inside a handler, inside unwinding (C++17/20), inside another guard and repeated; scopes with 1..3 tasks (thorough: 5) of which the n-th copy made by the guard throws, for every n')
def p21(deep):
    for std in STDS:
        for e in ('exit', 'success', 'fail'):
            for ctx in range(7):
                if ctx in (2, 4) and std == 14 and e != 'exit': continue
                cov = ['checked'] + (['inside unwinding'] if ctx in (2, 4) else [])
                for n in ((0, 1, 2, 3) if ctx != 6 else (1, 2)) if std == 20 or deep else (2 if ctx != 6 else 1,):
                    if n == 3 and not (ctx == 0 or deep): continue
                    yield J('scope', 'p21_' + e, std, dict(ctx=ctx, N=n, kinds=6), cov, weight=n)
            for n in (1, 2, 3) + ((4, 5) if deep else ()): yield J('scope', 'p21_copy_' + e, std, dict(N=n), ['checked', 'refused'])

# ---------------------------------------------------------------- strings
LOC = CORE + ['rt_locale.cpp']; CW = ['c', 'w']; ALLC = ['c', 'w', '16', '32']; UNI = ['-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1']; CHK = ['checked']
def chars(std): return ALLC + (['8'] if std == 20 else [])
def SJ(entry, std, params, weight=1, flags=(), time=300): return J('strs', entry, std, params, CHK, rt=LOC, samples=1, weight=weight, flags=flags, time=time)
@prop('P05', 'split: every text of up to 7 (quick) / 10 (thorough) elements and separator of up to 3 (4), also inside and after runs of other elements; join and map_join: up to 3 (4) pieces of every length 0..2 with every content and separators of up to 3 elements; five character types')
def p05(deep):
    for std in STDS:
        for c in chars(std):
            main = std == 20 and c in 'cw' or deep
            for n, m in [(0, 0), (0, 1), (1, 1), (2, 2), (2, 3), (4, 0), (7, 1), (7, 2), (7, 3)] + ([(8, 2), (10, 1), (10, 3), (9, 4), (12, 2)] if deep else []) if main else [(0, 1), (5, 2), (3, 0)]: yield SJ('p05_split_' + c, std, dict(n=n, m=m), n / 4)
            if main: yield SJ('p05_split_' + c, std, dict(n=4, m=2, pre=20, post=3), 2); yield SJ('p05_split_' + c, std, dict(n=3, m=1, mpost=1, pre=5, post=17), 2); yield SJ('p05_split_' + c, std, dict(n=3, m=1, mpost=20, pre=3, post=44), 2)
            for t in 'vl':
                for k, m in [(0, 1), (1, 1), (2, 0), (3, 2)] + ([(4, 1), (3, 3)] if deep else []) if main else [(0, 1), (2, 1)]:
                    for e in ('join', 'map'): yield SJ('p05_%s_%s%s' % (e, t, c), std, dict(k=k, m=m), k)
            if main: yield SJ('p05_join_v' + c, std, dict(k=2, m=1, pre=20, mpost=16), 2); yield SJ('p05_map_l' + c, std, dict(k=2, m=1, pre=20), 2)
        for c in chars(std) if std == 20 or deep else ('16',): yield SJ('p05_split_' + c, std, dict(n=4, m=1), 1, UNI); yield SJ('p05_join_v' + c, std, dict(k=2, m=1), 1, UNI)
@prop('P06', 'every text of up to 7 (quick) / 10 (thorough) elements, every classification of those elements by the locale (given or default), every element set of up to 3 (4); five character types for split_any_of')
def p06(deep):
    for std in STDS:
        for c in CW:
            for d in (0, 1):
                for n in ((0, 1, 7) + ((10,) if deep else ())) if std == 20 or deep else (5,): yield SJ('p06_ws_' + c, std, dict(n=n, dflt=d), n / 3)
                if std == 20: yield SJ('p06_ws_' + c, std, dict(n=4, dflt=d, pre=20, post=3), 2); yield SJ('p06_ws_' + c, std, dict(n=4, dflt=d, pre=0, post=20), 2)
        for c in chars(std):
            for n, m in ([(0, 1), (3, 0), (5, 3), (6, 2)] + ([(7, 1), (6, 4), (8, 2)] if deep else [])) if c in CW and std == 20 or deep else [(4, 2)]: yield SJ('p06_any_' + c, std, dict(n=n, m=m), n / 3)
            if c in CW and std == 20: yield SJ('p06_any_' + c, std, dict(n=4, m=2, pre=17, post=4), 2); yield SJ('p06_any_' + c, std, dict(n=4, m=1, mpost=1, pre=2, post=17), 2)
@prop('P07', 'every text of up to 6 (quick) / 8 (thorough) elements, pattern or set of up to 3 and replacement of up to 3 elements (contents independent, so the replacement may contain the pattern), also inside runs of up to 20 other elements; five character types', assume=['the string, the pattern and the replacement are distinct objects'])
def p07(deep):
    for std in STDS:
        for c in chars(std):
            main = std == 20 and c in CW or deep
            for n, m, k in ([(0, 0, 1), (3, 0, 0), (3, 0, 1), (3, 0, 2), (0, 1, 1), (2, 3, 1)] + [(5 + (m > 1), m, k) for m in (1, 2, 3) for k in (0, 1, 2, 3)] + ([(7, 1, 1), (8, 2, 1), (8, 2, 2), (8, 2, 3), (6, 1, 3), (7, 3, 3), (7, 2, 0)] if deep else [])) if main else [(3, 0, 1), (4, 1, 2), (4, 1, 1), (4, 2, 1), (4, 2, 2)]:
                for e in ('repl', 'any'): yield SJ('p07_%s_%s' % (e, c), std, dict(n=n, m=m, k=k), n / 2)
            if main:
                for e in ('repl', 'any'): yield SJ('p07_%s_%s' % (e, c), std, dict(n=3, m=1, k=1, pre=4, post=15), 3); yield SJ('p07_%s_%s' % (e, c), std, dict(n=3, m=1, k=1, kpost=17), 3); yield SJ('p07_%s_%s' % (e, c), std, dict(n=4, m=2, k=0, pre=20), 3)
        for c in chars(std) if std == 20 or deep else ('16',): yield SJ('p07_repl_' + c, std, dict(n=3, m=1, k=2), 1, UNI)
@prop('P08', 'every text of up to 8 (quick) / 11 (thorough) elements, also inside longer runs, and every classification of those elements by the locale (given or default)')
def p08(deep):
    for std in STDS:
        for c in CW:
            for op in range(3):
                for d in (0, 1):
                    for n in ((0, 1, 8) + ((11,) if deep else ())) if std == 20 or deep else (5,): yield SJ('p08_' + c, std, dict(n=n, op=op, dflt=d), n / 4)
                    if std == 20 or deep:
                        for pre, post in ((20, 0), (0, 20), (3, 15)): yield SJ('p08_' + c, std, dict(n=4, op=op, dflt=d, pre=pre, post=post))
@prop('P09', 'all triples of elements of char and wchar_t under every case mapping a locale can define (no bound on the values), the locale object gone and the comparator copied; plain comparators over every pair of values of 14 integer types, float and double and of eight pairs of different types, is_true/is_false also over bool, pointers and a user type')
def p09(deep):
    for std in STDS:
        for c in CW:
            for d in (0, 1):
                for f in ((), ('-DPLUTO_LOCALE_NO_STATIC=1',)): yield SJ('p09_' + c, std, dict(dflt=d), 3, f, time=500)
        for e in ('plain', 'float', 'mixed'): yield SJ('p09_' + e, std, {})
@prop('P10', 'every text of up to 6 (quick) / 9 (thorough) elements, also inside longer runs, every case mapping and classification of those elements by the locale (given or default); string, pointer-and-size (every subrange of an exact-size buffer) and element forms')
def p10(deep):
    for std in STDS:
        for c in CW:
            for e in ('map', 'is'):
                for form in range(3):
                    for up in (0, 1):
                        for d in (0, 1):
                            for n in ((0, 1, 6) + ((9,) if deep else ())) if std == 20 or deep else (4,):
                                if form == 2 and n == 0: continue
                                yield SJ('p10_%s_%s' % (e, c), std, dict(n=n, up=up, form=form, dflt=d), n / 4)
                            if form == 0 and std == 20: yield SJ('p10_%s_%s' % (e, c), std, dict(n=3, up=up, form=0, dflt=d, pre=17, post=2))
def strJobs(pid, ops, deep):
    pre = pid.lower() + '_str_'
    for std in STDS:
        for op in ops:
            if op == 5 and std == 14: continue
            for c in CW:
                for form in (0, 1):
                    for n, m in ([(0, 0), (2, 0), (2, 3), (3, 3), (5, 2)] + ([(6, 3), (8, 2), (7, 4)] if deep else [])) if std == 20 or deep else [(4, 2)]: yield SJ(pre + c, std, dict(op=op, form=form, n=n, m=m), 1)
                    for d in (0, 1):
                        for n, m in ([(2, 0), (2, 3), (3, 3), (4, 2)] + ([(6, 2), (5, 3)] if deep else [])) if std == 20 or deep else [(3, 2)]: yield SJ(pre + c, std, dict(op=op, form=form, ci=1, dflt=d, n=n, m=m), 2)
                    if std == 20: yield SJ(pre + c, std, dict(op=op, form=form, n=3, m=2, pre=17, post=3), 1)
            for c in CW if deep else ('c',): yield SJ(pre + c, std, dict(op=op, form=0, n=3, m=2), 1, UNI)
            for c in ('16', '32') + (('8',) if std == 20 else ()):
                for n, m in [(4, 2), (3, 3)] + ([(6, 3)] if deep else []): yield SJ(pre + c, std, dict(op=op, n=n, m=m), 1, UNI)

# ---------------------------------------------------------------- sequences and containers
SEQ = ['vv', 'll', 'vl', 'lv', 'bb', 'dv', 'ff']
def seqSizes(deep): return [(0, 0), (0, 1), (3, 0), (1, 1), (2, 3), (4, 2), (5, 3), (4, 4)] + ([(8, 2), (6, 5), (7, 4), (8, 5)] if deep else [])
@prop('P11', 'every relation (predicate) between the positions of sequences of up to 5x4 (quick) / 8x5 (thorough) elements, over vector, deque, list, forward_list and exact-size buffers; string forms with every text up to that size and every case mapping of up to 3 declared pairs')
def p11(deep):
    for std in STDS:
        for c in SEQ:
            for op in range(5):
                if op == 2 and c == 'ff': continue
                for n, m in (seqSizes(deep) if (std == 20 or deep) else [(4, 2), (2, 3), (3, 3)]):
                    if op == 4 and n != m: continue
                    yield J('seq', 'p11_' + c, std, dict(op=op, n=n, m=m, form=(n + m + op) % 2 if not deep and n > 1 else 1), ['checked'], weight=n * m / 8, samples=1)
                    if deep or n <= 1: yield J('seq', 'p11_' + c, std, dict(op=op, n=n, m=m, form=0), ['checked'], weight=n * m / 8, samples=1)
        for t in ('vv', 'vl', 'wide', 'bb'):
            for op in range(4):
                for n, m in ((4, 2), (3, 3), (2, 3)) + (((6, 3),) if deep else ()): yield J('seq', 'p11_val_' + t, std, dict(op=op, n=n, m=m), ['checked'], samples=1)
    yield from strJobs('P11', range(4), deep)
@prop('P12', 'every relation between the positions of sequences of up to 5x4 (quick) / 8x5 (thorough) elements, every content and unary predicate for up to 6/9 elements, over vector, deque, list, forward_list and exact-size buffers')
def p12(deep):
    for std in STDS:
        for c in SEQ:
            for op in range(1 if std == 14 else 2):
                for n, m in (seqSizes(deep) if (std == 20 or deep) else [(4, 2), (2, 3), (3, 3), (2, 0)]):
                    for form in (0, 1): yield J('seq', 'p12_' + c, std, dict(op=op, n=n, m=m, form=form), ['checked'], weight=n * m / 8, samples=1)
        for c in 'vldb':
            for op in (0, 1, 3, 4, 5, 6):
                for n in (0, 1, 4, 6) + ((9,) if deep else ()):
                    for form in (0, 1): yield J('seq', 'p12_one_' + c, std, dict(op=op, n=n, form=form), ['checked'], samples=1)
        for t in ('vv', 'vl', 'wide', 'bb'):
            for op in (4, 5) if std != 14 else (4,):
                for n, m in ((4, 2), (3, 3), (2, 3), (2, 0)) + (((6, 3),) if deep else ()): yield J('seq', 'p11_val_' + t, std, dict(op=op, n=n, m=m), ['checked'], samples=1)
    yield from strJobs('P12', (4, 5), deep)
@prop('P13', 'all pairs of 64-bit indices for every container of up to 6 (quick) / 10 (thorough) arbitrary elements: vector, list, deque, string, u16string, vector<bool>, elements with their own copy operations, elements that convert from anything')
def p13(deep):
    for std in STDS:
        for c in ('vec', 'list', 'deque', 'str', 'wstr', 'greedy', 'vbool'):
            ns = {'vec': (0, 1, 2, 6), 'list': (0, 3, 6), 'str': (0, 1, 4), 'vbool': (0, 3), 'deque': (3,), 'wstr': (3,), 'greedy': (0, 4)}[c]
            if deep: ns = ns + {'vec': (8, 10), 'list': (10,), 'str': (6, 18), 'vbool': (4,), 'deque': (0, 5), 'wstr': (6,), 'greedy': (6,)}[c]
            for n in (ns if std == 20 or deep else ns[-1:]): yield J('cont', 'p13_' + c, std, dict(n=n), ['checked'], weight=9 if c in ('vbool', 'deque') else 1, time=500)
@prop('P14', 'every content of up to 5 (quick) / 8 (thorough) elements and every predicate over the positions for the reductions; every pair of values for min/max/copy; every value of six integer types for abs; float and double sums of every bit pattern')
def p14(deep):
    for std in STDS:
        for n in (0, 1, 5) + ((8,) if deep else ()):
            for op in range(4):
                for c in ('vec', 'list', 'deque'): yield J('cont', 'p14_red_' + c, std, dict(n=n, op=op), ['checked'], samples=1)
            for c in ('', '_bool', '_list'): yield J('cont', 'p14_truth' + c, std, dict(n=n), ['checked'], samples=1)
            yield J('cont', 'p14_sum', std, dict(n=n), ['checked'], samples=1)
            for t in ('float', 'double', 'mixed'): yield J('cont', 'p14_sum_' + t, std, dict(n=n), ['checked'], samples=1)
            for op in range(6):
                for c in ('vec', 'list'):
                    if n: yield J('cont', 'p14_ext_' + c, std, dict(n=min(n, 6), op=op), ['checked'], samples=1, time=300)
        yield J('cont', 'p14_two', std, {}, ['checked'])
        for t in ('int', 'long', 'short', 'schar', 'uint', 'llong'): yield J('cont', 'p14_abs_' + t, std, {}, ['checked'])
@prop('P15', 'sort: every assignment of keys to up to 5 (quick) / 6 (thorough) elements, and 17..40 elements of which 2 have every key; reverse, filter, map, for_each: every content of up to 5/8 elements of vector, list and deque')
def p15(deep):
    for std in STDS:
        for op in range(3):
            for n in (0, 1, 3, 5) + ((6,) if deep else ()): yield J('cont', 'p15_sort', std, dict(op=op, n=n, sym=n, form=n % 2 if not deep else 1), ['checked'], weight=n, time=600)
            for n, r in ((17, 9), (19, 0)) + (((40, 21), (33, 5)) if deep else ()): yield J('cont', 'p15_sort', std, dict(op=op, n=n, sym=2, rot=r, form=r % 2), ['checked'], weight=6, time=600)
        for op in range(8):
            for c in ('vec', 'list', 'deque'):
                for n in ((0, 1, 3) if op == 7 else (0, 1, 2, 5) + ((8,) if deep else ())):
                    for form in ((0, 1) if op < 4 else (1,)): yield J('cont', 'p15_tr_' + c, std, dict(op=op, n=n, form=form), ['checked'], samples=1, weight=n, time=300)
@prop('P19', 'every history of up to 4 (quick) / 5 (thorough) operations from an empty cache of capacity 0..3 and of 1 (quick) / 2 (thorough, up to 3 entries) operations from every state of up to 3 entries, every 16-bit key and 32-bit value, every size_t capacity for set/query; copies and moves of every state of up to 2 (3) entries')
def p19(deep):
    cov = ['checked']
    for cap in (0, 1, 2, 3):
        yield J('lru', 'p19_scratch', 20, dict(N=3, cap=cap), cov, weight=5)
        yield J('lru', 'p19_scratch', 20, dict(N=4, cap=cap, kinds=7 if deep else 5), cov, weight=20 + cap, time=700)
        if deep: yield J('lru', 'p19_scratch', 20, dict(N=5, cap=cap, kinds=5), cov, weight=90, time=700)
    for fill in (1, 2, 3):
        for cap in sorted({fill, 3}):
            yield J('lru', 'p19_state', 20, dict(N=1, fill=fill, cap=cap), cov, weight=10 * fill, time=300)
            if fill < 3 or deep: yield J('lru', 'p19_state', 20, dict(N=2, fill=fill, cap=cap, kinds=7 if deep else 4), cov, weight=30 * fill, time=700)
    for fill, cap in (1, 1), (2, 2), (1, 2): yield J('lru', 'p19_state', 20, dict(N=4 if fill < 2 else 3, fill=fill, cap=cap, kinds=2, o0=6), cov, weight=10); yield J('lru', 'p19_state', 20, dict(N=3, fill=fill, cap=cap, kinds=2, o0=4, o1=4), cov, weight=10)
    for fill in (0, 1, 2) + ((3,) if deep else ()): yield J('lru', 'p19_copy', 20, dict(N=0 if fill == 3 else 1, fill=fill, cap=max(fill, 1)), cov, weight=20, time=600)
    for std in STDS:
        yield J('lru', 'p19_cap', std, {}, cov)
        if std != 20: yield J('lru', 'p19_scratch', std, dict(N=3, cap=2), cov, weight=6); yield J('lru', 'p19_copy', std, dict(N=0, fill=2), cov, weight=6)

# ---------------------------------------------------------------- concurrency
THR = CORE + ['rt_sched.cpp']; SC = ['sequentially consistent memory; synchronisation operations are atomic steps of a scheduler model (rt/rt_sched.cpp) that explores every choice of the next thread; data races are looked for separately and reported']
@prop('P20', 'every schedule of 2 threads with one call each (all pairs of calls), 2 threads with two calls each and 3 threads with one call each (selected calls), on caches holding up to 2 entries with arbitrary keys and values; data races included', assume=SC)
def p20(deep):
    n = 10
    for std in ((14, 17, 20) if deep else (20,)):
        for a in range(n): yield J('safe', 'p20', std, dict(T=2, N=1, fill=2, cap=2, o00=a), ['checked'], rt=THR, weight=3, time=600)
    if not deep:
        for std in (14, 17): yield J('safe', 'p20', std, dict(T=2, N=1, fill=1, cap=1, o00=0), ['checked'], rt=THR)
    W = (0, 1, 2, 3, 4, 6) if deep else (0, 2, 4)
    for a in W:
        for b in W:
            if a <= b: yield J('safe', 'p20', 20, dict(T=3, N=1, fill=1, cap=2, o00=a, o10=b), ['checked'], rt=THR, weight=4, time=600)
    for a, b, c in ([(a, b, c) for a in (0, 1, 2, 3, 4) for b in (0, 2, 3, 4) for c in (0, 2, 4)] if deep else [(0, 2, 0), (2, 3, 1), (4, 0, 2)]): yield J('safe', 'p20', 20, dict(T=2, N=2, fill=1, cap=1, o00=a, o01=b, o10=c), ['checked'], rt=THR, weight=5, time=600)
def pool(entry, s, std=20, covers=('checked',), **kw):
    p = {}
    for t in s.split():
        k, v = t.split('='); p[k] = int(v)
    return J('pool', entry, std, p, list(covers), rt=THR, time=kw.pop('time', 300), **kw)
POOLA = SC + ['the clock is a virtual clock that advances when a timed wait expires, plus a bounded number of arbitrary spontaneous steps', 'spurious wake-ups only where a job says so']
RUN, SYNC, RESIZE, WAITALL, WAITNONE, NESTED, GATED, RESIZER, PROBE = range(9)
def prog2(a, b): return ' '.join('k0%d=%d' % (i, k) for i, k in enumerate(a)) + ' ' + ' '.join('k1%d=%d' % (i, k) for i, k in enumerate(b))
@prop('P22', 'every schedule of 1-2 (thorough: 3) workers with 1-2 (3) clients of up to 2 operations each (submitting plain, nested, blocking and resizing tasks, run_sync, resizes to every size), then destruction with up to 3 waiting tasks under both policies, also while shrinking; data races in pairs of calls', assume=POOLA)
def p22(deep):
    for s, w in [('W=1 C=2 N=1 kinds=481', 3), ('W=2 C=2 N=1 kinds=97', 16), (prog2((0, 0), (0, 0)) + ' W=1 C=2 N=2', 1), (prog2((0, 0), (0, 0)) + ' W=2 C=2 N=2', 10), ('W=2 C=1 N=2 kinds=99', 4), ('W=1 C=2 N=1 k00=2 k10=0 max=2', 1), ('W=2 C=2 N=1 k00=2 k10=0 max=2', 1),
                 (prog2((2, 2), (0, 0)) + ' W=1 C=2 N=2 max=2', 4), (prog2((2, 2), (0, 0)) + ' W=2 C=2 N=2 max=2', 14), ('W=1 C=2 N=1 k00=7 k10=0 max=2', 1), (prog2((5, 2), (0, 1)) + ' W=1 C=2 N=2 max=2', 10), ('W=1 C=2 N=1 kinds=35 prios=2', 5), ('W=2 C=1 N=2 kinds=3 prios=2 late=1', 3)]: yield pool('p22', s, weight=w)
    for s in ['late=1', 'late=3', 'late=3 shrink=0', 'late=3 shrink=1', 'late=2 latekind=6', 'late=2 latekind=6 shrink=1', 'late=2 latekind=5', 'late=2 spurious=2', 'late=2 latekind=5 shrink=1']:
        for W in (1, 2) + ((3,) if deep else ()): yield pool('p22', 'W=%d C=0 N=0 ' % W + s, weight=W)
    yield pool('p22', 'W=3 C=0 N=0 late=3 shrink=1', weight=3); yield pool('p22', 'W=0 C=0 N=0 late=2'); yield pool('p22', 'W=2 C=1 N=1 late=1 spurious=1')
    for std in (14, 17): yield pool('p22', 'W=2 C=1 N=1 late=2 kinds=33', std); yield pool('p22_race', 'W=1 C=2 N=1 k00=0 k10=1', std)
    pairs = [(0, 0), (0, 1), (1, 1), (0, 2), (2, 2), (0, 3), (0, 4), (5, 8), (0, 8), (2, 8), (6, 6), (6, 8), (7, 0), (7, 8), (3, 8)]
    for a, b in pairs: yield pool('p22_race', 'C=2 N=1 k00=%d k10=%d W=%d' % (a, b, 2 if 2 in (a, b) or 7 in (a, b) else 1))
    if deep:
        for a in range(9):
            for b in range(a, 9):
                if (a, b) not in pairs: yield pool('p22_race', 'C=2 N=1 k00=%d k10=%d W=2' % (a, b), weight=3)
        for a, b, c in [(0, 2, 8), (1, 2, 6), (6, 6, 0), (6, 7, 3), (5, 2, 4)]: yield pool('p22_race', 'C=3 N=1 k00=%d k10=%d k20=%d W=1' % (a, b, c), weight=20)
        for a in (0, 1, 2, 5, 7):
            for b in (0, 1, 2, 5): yield pool('p22', prog2((a, b), (0, 2)) + ' W=2 C=2 N=2 max=2', weight=40, time=600)
        for a, b, c in [(0, 0, 0), (0, 1, 2), (5, 0, 2), (2, 2, 0), (7, 0, 1), (6, 2, 0)]: yield pool('p22', 'W=2 C=3 N=1 k00=%d k10=%d k20=%d max=2' % (a, b, c), weight=50, time=600)
        yield pool('p22', 'W=3 C=2 N=1 k00=0 k10=0', weight=20); yield pool('p22', 'W=3 C=1 N=2 k00=0 k01=2 max=3', weight=20)
@prop('P23', 'all 256 priorities for up to 4 (thorough: 5) waiting tasks with 1 worker and 3 (4) with 2 workers; the same with tasks submitted concurrently by 2 clients; all named levels, raw values and defaults through all four submitting calls for 2-3 tasks; sizes at every quiescent point of the scenarios', assume=POOLA)
def p23(deep):
    for s, w in [('W=1 C=0 N=0 pre=4 prios=2 orders=1', 1), ('W=2 C=0 N=0 pre=4 prios=2 orders=1', 1), ('W=1 C=1 N=3 prios=2 orders=1', 1), ('W=1 C=1 N=2 kinds=33 prios=2 orders=1', 1), ('W=1 C=1 N=2 pre=2 prios=2 orders=1', 1), ('W=1 C=2 N=1 kinds=33 prios=2 orders=1', 5), (prog2((0, 0), (0, 0)) + ' W=1 C=2 N=2 prios=1 orders=1', 19),
                 ('W=2 C=2 N=1 kinds=256', 1), (prog2((0, 0), (8, 8)) + ' W=1 C=2 N=2', 1), (prog2((0, 0), (8, 8)) + ' W=2 C=2 N=2', 2), (prog2((6, 6), (0, 6)) + ' W=2 C=2 N=2', 3), (prog2((6, 2), (0, 8)) + ' W=2 C=2 N=2 max=2', 6), ('W=2 C=1 N=2 kinds=71 max=2', 2), ('W=1 C=1 N=1 pre=2 prekind=8 kinds=256', 1), ('W=2 C=1 N=2 pre=2 prekind=8 kinds=260 max=2', 2)]: yield pool('p23', s, weight=w)
    for how in range(4): yield pool('p23_named', 'K=%d how=%d' % (3 if how == 0 else 2, how))
    for std in (14, 17): yield pool('p23', 'W=1 C=0 N=0 pre=3 prios=2 orders=1', std); yield pool('p23_named', 'K=2', std)
    if deep:
        yield pool('p23', 'W=1 C=0 N=0 pre=5 prios=2 orders=1', weight=9); yield pool('p23', 'W=3 C=0 N=0 pre=4 prios=2 orders=1', weight=30); yield pool('p23', 'W=1 C=2 N=2 k00=0 k01=0 k10=0 k11=5 prios=1 orders=1', weight=50, time=700); yield pool('p23', 'W=1 C=2 N=1 pre=2 k00=0 k10=0 prios=2 orders=1', weight=30, time=700); yield pool('p23', 'W=2 C=3 N=1 k00=6 k10=2 k20=8 max=2', weight=40, time=700)
        for how in range(4): yield pool('p23_named', 'K=3 how=%d' % how, weight=4, time=600)
@prop('P24', 'every schedule of 1-2 workers with 1-3 clients mixing submissions (plain, nested, blocking, resizing), run_sync, both waits and resizes to every size 0..2, up to 2 operations each (3 for one client)', assume=POOLA)
def p24(deep):
    L = [('W=1 C=2 N=1 k00=0 k10=3', 1), (prog2((0, 0), (3, 3)) + ' W=1 C=2 N=2', 1), (prog2((0, 0), (3, 4)) + ' W=2 C=2 N=2', 1), (prog2((2, 3), (0, 4)) + ' W=2 C=2 N=2 max=2', 2), (prog2((2, 1), (1, 3)) + ' W=1 C=2 N=2 max=2', 3), ('W=2 C=3 N=1 k00=0 k10=3 k20=2 max=2', 4), (prog2((6, 2), (0, 3)) + ' W=2 C=2 N=2 max=2', 5), ('W=1 C=1 N=3 k00=0 k01=2 k02=3 max=2', 1), ('W=1 C=1 N=3 k00=7 k01=0 k02=3 max=2', 1), ('W=1 C=1 N=3 k00=0 k01=0 k02=4', 1), ('W=1 C=1 N=3 k00=6 k01=0 k02=4', 1), (prog2((0, 0), (4, 4)) + ' W=1 C=2 N=2', 1),
         (prog2((1, 4), (5, 3)) + ' W=1 C=2 N=2', 3), (prog2((7, 3), (0, 4)) + ' W=1 C=2 N=2 max=2', 4), ('W=2 C=2 N=1 k00=1 k10=1', 2), (prog2((0, 2), (3, 3)) + ' W=2 C=2 N=2 max=2', 4), (prog2((2, 2), (0, 3)) + ' W=1 C=2 N=2 max=2', 6), ('W=1 C=3 N=1 k00=0 k10=3 k20=4', 1), ('W=1 C=3 N=1 k00=0 k10=4 k20=4', 1), ('W=2 C=3 N=1 k00=0 k10=4 k20=4', 2), ('W=1 C=3 N=1 k00=0 k10=3 k20=3', 1), ('W=1 C=3 N=1 k00=4 k10=4 k20=3 pre=1', 1), ('W=2 C=2 N=1 k00=3 k10=3 pre=2', 1), ('W=1 C=3 N=1 k00=6 k10=3 k20=2 max=1', 3), ('W=1 C=2 N=1 k00=0 k10=3 spurious=2', 1), (prog2((0, 3), (2, 1)) + ' W=1 C=2 N=2 max=2 spurious=1', 10), ('W=2 C=3 N=1 k00=7 k10=3 k20=0 max=2', 6), ('W=1 C=3 N=1 k00=0 k10=3 k20=1 prios=2', 5), (prog2((0, 1), (5, 3)) + ' W=1 C=2 N=2 prios=2', 5), (prog2((0, 2), (1, 4)) + ' W=1 C=2 N=2 prios=2', 8)]
    for s, w in L: yield pool('p24', s, weight=w)
    for std in (14, 17): yield pool('p24', prog2((0, 2), (3, 1)) + ' W=1 C=2 N=2 max=1', std)
    if deep:
        for a in (0, 1, 5, 6, 7):
            for b in (2, 3, 4): yield pool('p24', prog2((a, b), (2, 3)) + ' W=2 C=2 N=2 max=2', weight=30, time=600); yield pool('p24', 'W=2 C=3 N=1 k00=%d k10=%d k20=3 max=2' % (a, b), weight=20, time=600)
        yield pool('p24', prog2((2, 2), (1, 2)) + ' W=2 C=2 N=2 max=2', weight=35); yield pool('p24', 'W=2 C=3 N=1 k00=1 k10=1 k20=1 max=2', weight=35); yield pool('p24', 'W=1 C=3 N=1 k00=1 k10=2 k20=2 max=2', weight=30)
@prop('P25', 'every schedule of 1-2 clients scheduling up to 2 tasks each (3 for one client) with arbitrary times (all 64-bit values in one job), delays and priorities, every advance of the clock, 1-2 workers, also with one of them busy and with a scheduled task that schedules another, then the pool living on, being destroyed with tasks pending while time stands still, or being destroyed at any moment; system and steady clock', assume=POOLA)
def p25(deep):
    for s, w in [('W=1 C=1 N=1', 1), ('W=1 C=1 N=2', 1), ('W=1 C=2 N=1 ticks=1', 14), ('W=1 C=1 N=2 ticks=1', 4), ('W=1 C=1 N=3', 9), ('W=1 C=1 N=2 again=1', 1), ('W=1 C=1 N=2 mode=1', 1), ('W=1 C=2 N=1 mode=1', 1), ('W=1 C=1 N=3 mode=1', 4), ('W=1 C=1 N=2 how=2', 1), ('W=1 C=2 N=1 how=2', 21), ('W=1 C=1 N=2 wide=1', 1), ('W=2 C=2 N=1', 16), ('W=2 C=1 N=2', 5), ('W=1 C=1 N=2 prios=1', 1), ('W=0 C=1 N=2 mode=2 ticks=1', 1), ('W=1 C=2 N=1 mode=2', 3), ('W=1 C=1 N=2 mode=2', 2), ('W=1 C=1 N=2 spurious=1', 1), ('W=1 C=1 N=2 how=1', 1), ('W=2 C=1 N=2 busy=1', 1), ('W=2 C=2 N=1 busy=1', 3), ('W=1 C=1 N=2 nest=1', 3), ('W=1 C=1 N=1 nest=1 mode=2 ticks=1', 1), ('W=2 C=1 N=1 nest=1 mode=2', 3), ('W=1 C=1 N=2 nest=1 mode=1', 1), ('W=1 C=1 N=1 nest=1 ticks=1', 1)]: yield pool('p25', s, weight=w)
    yield pool('p25', 'W=1 C=2 N=1', flags=['-DPLUTO_THREAD_POOL_CLOCK_TYPE=std::chrono::steady_clock'], weight=2)
    for std in (14, 17): yield pool('p25', 'W=1 C=1 N=2', std)
    if deep:
        for x in ('W=1 C=2 N=1 nest=1', 'W=1 C=2 N=1 nest=1 mode=2', 'W=1 C=1 N=2 nest=1 mode=2', 'W=3 C=1 N=2 busy=1', 'W=2 C=1 N=2 busy=1 nest=1', 'W=2 C=1 N=3 busy=1'): yield pool('p25', x, weight=30, time=750)
        yield pool('p25', 'W=1 C=2 N=2', weight=90, time=750); yield pool('p25', 'W=1 C=1 N=3 ticks=1', weight=90, time=750); yield pool('p25', 'W=1 C=3 N=1', weight=80, time=750); yield pool('p25', 'W=1 C=1 N=4', weight=70, time=750); yield pool('p25', 'W=1 C=2 N=1 ticks=2', weight=60, time=750); yield pool('p25', 'W=2 C=1 N=2 how=2', weight=50, time=750); yield pool('p25', 'W=1 C=1 N=2 ticks=2 spurious=1', weight=50, time=750)
        for m in (1, 2): yield pool('p25', 'W=1 C=2 N=1 mode=%d ticks=1' % m, weight=40, time=750); yield pool('p25', 'W=2 C=1 N=2 mode=%d' % m, weight=40, time=750)
IOU = THR + ['rt_locale.cpp', 'rt_io.cpp']; OVF = ('OV:overlay_io',)
def logj(entry, s, std=20, covers=('checked',), **kw):
    p = {}
    for t in s.split():
        k, v = t.split('='); p[k] = int(v)
    return J(kw.pop('src', 'logger'), entry, std, p, list(covers), rt=IOU, time=kw.pop('time', 300), flags=list(OVF) + list(kw.pop('flags', ())), **kw)
IOA = POOLA + ['file streams, directories and file-name operations act on an in-memory file system model (rt/rt_io.cpp) in which every open, write, rename, remove or size query can be made to fail where a job says so; iostream formatting of integers and strings is a model of the C++ standard library, checked against it natively on every replay']
@prop('P26', 'every schedule of 1-3 logging threads with up to 2 calls each (3 for one thread; log to either of two files, log below the level, set the level to any of 256 values, set the flush size to any 64-bit value), every initial level and flush size, messages with an arbitrary byte, the background writer, up to 2 failing opens and 1 other failing file operation, then the file contents at rest or destruction at any moment; the process-wide logger first used by 2 threads; files in missing directories with up to 4 (thorough: 6) calls switching directory creation; data races in pairs of calls; in the quick tier at most 3 preemptions for 3 threads and for 2 threads with 2 calls to two files', assume=IOA)
def p26(deep):
    J_ = [('C=2 N=1 kinds=31', 8), ('C=0 N=0 mode=1', 1), ('C=1 N=2 k00=0 k01=3 flush=2', 1), ('C=2 N=2 kinds=3 flush=2 level=3 preempt=3', 17), ('C=2 N=2 kinds=1 flush=2 level=3', 8), ('C=1 N=3 kinds=21', 7), ('C=1 N=3 kinds=9', 2), ('C=2 N=1 kinds=3 faults=2 mode=1 level=3', 10), ('C=2 N=1 kinds=1 faults=3 xfaults=1', 1), ('C=1 N=2 kinds=2 xfaults=1', 1), ('C=1 N=2 kinds=3 xfaults=2 mode=1', 1), ('C=2 N=1 kinds=2 xfaults=1 mode=1', 2), ('C=1 N=3 kinds=3 mode=1', 8), ('C=2 N=1 kinds=9 mode=1', 4), ('C=2 N=1 kinds=1 spurious=2', 1), ('C=3 N=1 kinds=1 flush=1 level=3 preempt=3', 10), ('C=2 N=1 kinds=17 headers=0', 2), ('C=1 N=2 kinds=3 flush=0 mode=1', 1), ('C=1 N=3 kinds=9 flush=2', 3)]
    for s, w in J_: yield logj('p26', s, weight=w)
    yield logj('p26_dirs', 'N=4'); yield logj('p26_dirs', 'N=4 deep=1')
    yield logj('p26_instance', 'C=2 N=1', weight=3); yield logj('p26_instance', 'C=2 N=1 races=1', weight=3)
    for std in (14, 17): yield logj('p26', 'C=2 N=1 kinds=1', std); yield logj('p26', 'C=1 N=2 kinds=3 flush=2 mode=1', std); yield logj('p26_race', 'a=0 b=10', std, weight=3)
    pairs = [(2, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (0, 8), (0, 9), (0, 10), (0, 11), (10, 12), (11, 12), (13, 5), (13, 9), (0, 13), (10, 10), (0, 2)]
    for a, b in pairs: yield logj('p26_race', 'a=%d b=%d' % (a, b), weight=4)
    for k in (3, 4, 7, 8, 10, 11): yield logj('p26_race', 'a=%d b=13 main=1' % k, weight=4)
    if deep:
        for s, w in [('C=2 N=2 kinds=3 flush=2 level=3', 60), ('C=3 N=1 kinds=1 flush=1 level=3', 120), ('C=2 N=2 kinds=3', 400), ('C=1 N=3 kinds=31', 28), ('C=2 N=2 kinds=3 flush=2 mode=1', 38), ('C=3 N=1 kinds=3', 25), ('C=2 N=2 kinds=17', 45), ('C=2 N=2 kinds=9 mode=1', 80), ('C=2 N=2 kinds=31', 200), ('C=3 N=1 kinds=3 flush=2 mode=1', 60), ('C=2 N=2 kinds=3 faults=2 mode=1', 60), ('C=1 N=4 kinds=27 flush=2', 60), ('C=2 N=2 kinds=3 spurious=1', 60), ('C=2 N=1 kinds=31 faults=2 mode=1', 30), ('C=3 N=1 kinds=25', 90), ('C=1 N=3 kinds=31 faults=2 xfaults=1 mode=1', 60)]: yield logj('p26', s, weight=w, time=700)
        yield logj('p26_dirs', 'N=6'); yield logj('p26_dirs', 'N=6 deep=1')
        yield logj('p26_instance', 'C=2 N=2', weight=36, time=600); yield logj('p26_instance', 'C=3 N=1', weight=60, time=600)
        for a in range(14):
            for b in range(a, 14):
                if (a, b) not in pairs: yield logj('p26_race', 'a=%d b=%d' % (a, b), weight=100 if a < 2 and b < 2 else 6, time=700)
            yield logj('p26_race', 'a=%d b=0 main=1 rotate=1' % a, weight=30, time=700)
@prop('P27', 'every 64-bit maximum and flush size with up to 4 (thorough: 5) arbitrary calls (log to either file, reset the counter, change the maximum, change the flush size) of one thread, the writer held back or at rest after each call; every schedule of 2 threads with 1-2 (3 threads with 1) messages to 1-2 files and the writer, in the quick tier with at most 3-4 preemptions for the larger ones', assume=IOA)
def p27(deep):
    for s, w in [('N=4', 4), ('N=4 gate=1', 4), ('N=6 gate=1 ops=2', 1), ('N=4 gate=1 quiet=1 ops=3', 2)]: yield logj('p27', s, weight=w)
    for s, w in [('C=2 N=1', 5), ('C=2 N=1 files=2 preempt=4', 16), ('C=2 N=2 max=1 flush=1 preempt=4', 10), ('C=2 N=2 max=1 flush=2', 8), ('C=2 N=2 max=2 flush=2', 12), ('C=2 N=2 max=0 flush=2', 8), ('C=3 N=1 max=1 flush=1 preempt=3', 12)]: yield logj('p27_threads', s, weight=w)
    for std in (14, 17): yield logj('p27', 'N=3', std); yield logj('p27_threads', 'C=2 N=1 max=1', std, weight=2)
    if deep:
        yield logj('p27', 'N=5', weight=20, time=600); yield logj('p27_threads', 'C=2 N=1 files=2', weight=75, time=700); yield logj('p27_threads', 'C=3 N=1 max=1 flush=1', weight=120, time=700); yield logj('p27', 'N=5 gate=1', weight=20, time=600); yield logj('p27', 'N=8 gate=1 ops=2', weight=9, time=600); yield logj('p27', 'N=6 ops=3', weight=30, time=600)
        for m in (0, 1, 2, 3):
            for f in (0, 1, 2, 3): yield logj('p27_threads', 'C=2 N=2 max=%d flush=%d' % (m, f), weight=60, time=700)
        for m, f in ((1, 1), (1, 2), (2, 2), (2, 1)): yield logj('p27_threads', 'C=3 N=1 max=%d flush=%d quiet=1' % (m, f), weight=60, time=700); yield logj('p27_threads', 'C=2 N=2 max=%d flush=%d files=2' % (m, f), weight=100, time=700)
@prop('P28', 'every 64-bit rotation size and limit (also changed in between), up to 4 (thorough: 5-6) messages of 0-2 bytes written one by one or in one batch, up to 3 files of up to 2 lines left from before in every combination, five shapes of file name, headers on and off; up to 2 failing opens and 2 other failing file operations', assume=IOA + ['file-name operations are compared with a reference model of the numbered files'])
def p28(deep):
    for sh in range(5): yield logj('p28', 'N=3 name=%d' % sh, weight=1)
    for s, w in [('N=4', 1), ('N=4 batch=1', 1), ('N=4 headers=0', 1), ('N=5 len=1', 1), ('N=2 pre=3', 5), ('N=2 pre=3 batch=1 headers=0', 5), ('N=3 change=1', 4), ('N=3 faults=2 xfaults=1', 5), ('N=4 faults=1 xfaults=2', 12), ('N=3 batch=1 faults=1 xfaults=1', 3), ('N=3 pre=2', 5)]: yield logj('p28', s, weight=w)
    for std in (14, 17): yield logj('p28', 'N=3 name=1', std); yield logj('p28', 'N=2 pre=2 name=3', std, weight=2); yield logj('p28', 'N=2 faults=1 xfaults=1', std)
    if deep:
        for s, w in [('N=6', 5), ('N=6 batch=1', 5), ('N=3 pre=3', 37), ('N=3 pre=3 batch=1 name=1', 37), ('N=4 change=1', 37), ('N=5 faults=2 xfaults=2', 194), ('N=4 len=4', 5), ('N=2 pre=4 name=3', 40), ('N=2 pre=2 change=1', 30)]: yield logj('p28', s, weight=w, time=700)
@prop('P29', 'every message, scheme, format argument or stream piece of 0-4 bytes and of lengths around the internal buffer sizes with symbolic bytes, all 9 levels against every setting at and just above them, all 256 level values for the names, every result the C formatter can return (any text, failure, failure on the second call), from the main and another thread, with a clock that moves during the call; all four interfaces, their macros, with and without source information', assume=IOA + ['vsnprintf is a model: it returns any text of bounded length, an error, or the text of the %s %d %c %% conversions it understands', 'floating-point std::format arguments are not exercised'])
def p29(deep):
    R = dict(src='logrec'); HIDE = ['-DPLUTO_LOGGER_HIDE_SOURCE_INFO=1']
    for std in (14, 17, 20): yield logj('p29_names', '', std, **R); yield logj('p29_macros', '', std, **R); yield logj('p29_macros', '', std, flags=HIDE, **R)
    for e in ('write', 'writef', 'stream', 'format'):
        for std in ((20,) if e == 'format' else (14, 17, 20)):
            yield logj('p29_' + e, 'levels=1 thread=1 ticks=1', std, **R); yield logj('p29_' + e, 'levels=1 ticks=1 len=2', std, flags=HIDE, **R)
        for b in (12, 30, 60): yield logj('p29_' + e, 'base=%d len=6' % b, **R)
    for fm in (1, 2, 3):
        for b in (0, 13, 60): yield logj('p29_writef', 'fmode=%d base=%d len=5 thread=1' % (fm, b), **R)
    for std in (14, 17):
        for fm in (1, 2, 3): yield logj('p29_writef', 'fmode=%d len=4' % fm, std, **R)
    if deep:
        for e in ('write', 'writef', 'stream', 'format'):
            for b in range(0, 90, 10): yield logj('p29_' + e, 'base=%d len=12 levels=1' % b, weight=5, **R)
        for fm in (1, 2, 3):
            for b in range(0, 90, 10): yield logj('p29_writef', 'fmode=%d base=%d len=12' % (fm, b), weight=5, **R)
@prop('P34', 'every calendar date and time of years 1000-9099, every microsecond with 7 values of the milliseconds and several seconds, every 32-bit and the largest thread numbers, all levels, line numbers 0-9999999, file names, functions and messages of 0, 1, 2, 19, 20, 21 and 30 bytes (symbolic at both ends and around the column width) with several directories, each varied on its own; with and without source information and header', assume=['localtime_r is a stand-in that returns an arbitrary broken-down time; strftime, stream insertion and manipulators are a model of the C++ standard library, checked against it natively on every replay'])
def p34(deep):
    R = dict(src='logrec', opts=('--chain', '400'), time=600); HIDE = ['-DPLUTO_LOGGER_HIDE_SOURCE_INFO=1']
    for v in range(10):
        if v != 1: yield logj('p34', 'vary=%d' % v, **R); yield logj('p34', 'vary=%d' % v, flags=HIDE, **R)
    for std in (14, 17):
        for v in (0, 3, 4, 8): yield logj('p34', 'vary=%d' % v, std, **R)
    yield logj('p34', 'vary=1 header=0', weight=16, **R); yield logj('p34', 'vary=1 header=0 sec=1736400000', weight=25, **R)
    if deep:
        for std in (14, 17):
            for v in range(10): yield logj('p34', 'vary=%d' % v, std, weight=2, **R); yield logj('p34', 'vary=%d' % v, std, flags=HIDE, weight=2, **R)
# ---------------------------------------------------------------- values as text
IOT = CORE + ['rt_sched.cpp', 'rt_locale.cpp', 'rt_io.cpp']; CT = ['short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong']
def conv(entry, s, std=20, covers=('checked',), **kw): return logj(entry, s, std, covers, src=kw.pop('src', 'conv'), opts=('--chain', '700'), **kw)
@prop('P31', 'every value of eight integer types, bool and both character types, in both directions; every text of up to 3 (quick) / 5 (thorough) arbitrary characters read as a number, longer ones as digit runs around the limits of the type with arbitrary characters before and after; words of up to 4 characters; a user-defined type; histories of up to 2 conversions that leave flags and errors on their streams; string, array and wide forms', assume=['number formatting and parsing of the standard streams (num_put, num_get, istream, ostream) is a model of the C++ standard library (rt/rt_io.cpp), checked against libstdc++ natively on every replay'])
def p31(deep):
    for t in CT:
        for std in STDS if deep or t in ('int', 'ullong') else (20,):
            for w in (0, 1):
                for a in (0, 1): yield conv('p31_in_' + t, 'wide=%d array=%d' % (w, a), std)
                yield conv('p31_out_' + t, 'wide=%d' % w, std)
                for n in ((0, 1, 2, 3, 4) if deep else (0, 2, 3) if t in ('int', 'ulong') else (2,)): yield conv('p31_any_' + t, 'n=%d wide=%d' % (n, w), std, ['checked', 'no number'], weight=n)
    for t in ('short', 'int'): yield conv('p31_trip_' + t, 'wide=0', weight=3)
    yield conv('p31_any_int', 'n=1 fill=8 tail=2', weight=3); yield conv('p31_any_short', 'n=1 fill=3 tail=2', weight=3); yield conv('p31_any_ullong', 'n=2 fill=17 tail=2', weight=12); yield conv('p31_any_int', 'n=0 fill=9 tail=2', weight=2); yield conv('p31_any_ushort', 'n=1 fill=4 tail=1', weight=2)
    if deep:
        for t in ('int', 'ulong', 'short'): yield conv('p31_any_' + t, 'n=5 array=1', 20, ['checked', 'no number'], weight=20, time=700)
    for std in STDS:
        for w in (0, 1):
            for k in range(5):
                for n in ((1, 3, 4) if deep else (3,)) if k >= 2 else (0,): yield conv('p31_other', 'what=%d wide=%d n=%d' % (k, w, n), std, ['checked'] + (['word'] if k == 2 else []), weight=2)
            yield conv('p31_user', 'wide=%d' % w, std)
            for n in (1, 2) if deep else (1,): yield conv('p31_history', 'N=%d wide=%d' % (n, w), std, weight=12 * n, time=600)
def times(entry, s, std=20, **kw): return logj(entry, s, std, src='times', **kw)
@prop('P32', 'every time whose year fits tm_year, every UTC offset of the local zone within about 18 hours at each of them, histories of up to 3 (thorough: 4) calls in either zone, the same time asked for again included; every schedule of 2 threads with 1-2 calls each in all combinations of zones, data races included', assume=['the C library converts as its documentation says (gmtime_r: proleptic Gregorian calendar; localtime_r: the same at the zone\'s offset, an arbitrary function of the time); the non-reentrant forms share one static buffer'])
def p32(deep):
    for std in STDS:
        for n in (1, 2, 3) + ((4,) if deep else ()): yield times('p32_times', 'N=%d' % n, std); yield times('p32_times', 'N=%d wide=1' % n, std)
        for a in (0, 1):
            for b in (0, 1): yield times('p32_threads', 'a=%d b=%d' % (a, b), std); yield times('p32_threads', 'a=%d b=%d N=2 wide=1' % (a, b), std)

@prop('P33', 'every value of float, double, x87 long double and of eleven integral types; histories of 2 (thorough: 3) pow calls; exp, log and pow themselves are arbitrary functions', assume=['the rounding mode is to nearest, ties to even (the default)', 'pow, exp and log of the C library are arbitrary functions of the bits of their arguments; of pow only C Annex F at power 0 and base 1 is assumed'])
def p33(deep):
    fl = ['-fno-builtin-pow', '-fno-builtin-powf', '-fno-builtin-powl', '-ffp-contract=off']
    for std in STDS:
        for t in ('float', 'double', 'ldouble', 'int', 'uint', 'long', 'ulong', 'short', 'ushort', 'schar', 'uchar', 'char', 'bool', 'char32'):
            yield J('values', 'p33_pow_' + t, std, dict(N=3 if deep else 2), ['checked'], flags=fl, time=600); yield J('values', 'p33_round_' + t, std, {}, ['checked'], flags=fl, time=600, weight=3 if 'double' in t else 1)
        for t in ('float', 'double', 'ldouble'): yield J('values', 'p33_order_' + t, std, {}, ['checked'], flags=fl, time=300)
@prop('P35', 'every assignment of positive 32-bit ids to processes and threads; histories of up to 4 (thorough: 6) calls and forks of one thread; every schedule of 2-3 threads and the main thread with 1-2 pairs of calls each, data races included; a thread that forks and goes on in the child; up to 3 threads one after another', assume=['getpid and gettid give the ids the operating system assigned; ids of processes and threads alive at the same time differ, the first thread of a process has the id of the process, and a fork gives the child and its one thread a new id'])
def p35(deep):
    for std in STDS:
        for n in (2, 3, 4) + ((5, 6) if deep else ()): yield logj('p35_history', 'N=%d' % n, std, src='ids')
        for s in ('C=2 N=1', 'C=2 N=1 races=1', 'C=2 N=2', 'C=3 N=1 races=1', 'C=2 N=2 fork=1', 'C=2 N=3 fork=1') + (('C=3 N=2', 'C=2 N=3 races=1') if deep else ()): yield logj('p35_threads', s, std, src='ids', time=600)
        for n in (2, 3) + ((5,) if deep else ()): yield logj('p35_successive', 'C=%d' % n, std, src='ids')
@prop('P36', 'histories of 3-4 (thorough: 5) calls in which the meaning of the empty and of the default name (any of three locales, or not installed) and the global locale change in between; every schedule of 2 threads with 1-2 calls (3 with 1) that use the locales first, data races included; both settings of PLUTO_LOCALE_NO_STATIC; the default name as it is, another one, and an expression', assume=['std::locale(name) gives the locale installed under that name or throws std::runtime_error, as the environment has it at that moment; std::locale is a model of the C++ standard library'])
def p36(deep):
    for ns in (0, 1):
        for std in STDS:
            for cu in (0, 1, 2):
                f = ['-DPLUTO_LOCALE_NO_STATIC=%d' % ns, '-DCUSTOM=%d' % cu]
                for n in (3,) + ((4,) if deep or std == 20 and cu == 0 else ()) + ((5,) if deep and std == 20 and cu == 0 else ()): yield logj('p36_history', 'N=%d' % n, std, src='locs', flags=f, weight=2 ** n, time=700)
                for s in ['C=2 N=1', 'C=2 N=1 races=1'] + (['C=2 N=2', 'C=3 N=1'] if deep or std == 20 and cu == 0 else []): yield logj('p36_threads', s, std, src='locs', flags=f, weight=4, time=700)
@prop('P37', 'histories of up to 3 (thorough: 4) arbitrary setter calls with arbitrary 64-bit sizes, flags, levels and writers, on one logger or spread over two; every schedule of two setters, or a setter and a reader of all settings, in two threads, data races included; up to 4 (thorough: 5) calls that log a line or replace a writer or the header setting, lines written at once or at destruction; every schedule of 1-2 lines of one thread while another replaces the writer and logs; three initial configurations', assume=IOA)
def p37(deep):
    for cfg in (0, 1, 2):
        for std in STDS:
            f = ['-DCFG=%d' % cfg]; L = lambda e, s, **kw: logj(e, s, std, src='logset', flags=f, **kw)
            for n in (2, 3) + ((4,) if deep else ()): yield L('p37_history', 'N=%d' % n, weight=n)
            yield L('p37_two', 'N=2'); yield L('p37_two', 'N=3', weight=3)
            for n in (4,) + ((5, 6) if deep else ()): yield L('p37_writers', 'N=%d' % n, weight=n); yield L('p37_writers', 'N=%d late=1' % n, weight=n)
            if std == 20 or deep: yield L('p37_swap', 'N=1'); yield L('p37_swap', 'N=2', weight=4)
    for a in range(10):
        for b in range(a, 11):
            if a == b == 7: continue
            for std in (14, 17, 20) if deep else (20,): yield logj('p37_threads', 'a=%d b=%d' % (a, b), std, src='logset', flags=['-DCFG=0'], weight=3)
@prop('P38', 'every state of up to 3 entries with any 8-bit keys and 32-bit values in caches of capacity 1-3, then 1-2 (thorough: 3) calls (insert, insert_or_assign, get, remove, set the capacity) in each of which the n-th copy of a key or value fails, for every n; copies and assignments of such caches that fail; both caches', assume=['moving keys and values does not throw, comparisons do not throw; a failing allocation is represented by the copy that would follow it'])
def p38(deep):
    T = lambda e, p, std, safe, **kw: J('lruex', e, std, p, ['checked'], rt=THR if safe else CORE, flags=['-DHX_SAFE'] if safe else [], time=600, **kw)
    for std in STDS:
        for cap, fill in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 2)) + (((3, 3),) if deep or std == 20 else ()):
            for op in range(5):
                yield T('p38_fail', dict(cap=cap, fill=fill, o0=op), std, False, weight=1 + fill * fill)
                if (fill, cap) in ((1, 1), (2, 2)): yield T('p38_fail', dict(cap=cap, fill=fill, o0=op), std, True, weight=2)
        for cap, fill in ((1, 1), (2, 2), (3, 3)) if deep else ((1, 1), (2, 2)): yield T('p38_copy', dict(cap=cap, fill=fill), std, False, weight=2)
    for a in range(5):
        for b in range(5):
            yield T('p38_fail', dict(cap=2, fill=1, N=2, o0=a, o1=b), 20, False, weight=2); yield T('p38_fail', dict(cap=2, fill=2, N=2, o0=a, o1=b), 20, False, weight=6)
            if deep:
                yield T('p38_fail', dict(cap=3, fill=2, N=2, o0=a, o1=b), 20, False, weight=20); yield T('p38_fail', dict(cap=2, fill=1, N=2, o0=a, o1=b), 20, True, weight=6)
                for c in range(5): yield T('p38_fail', dict(cap=2, fill=2, N=3, o0=a, o1=b, o2=c), 20, False, weight=30)
@prop('P39', 'every schedule of pools of 0-2 workers (thorough: 3; creation up to 4) in which the n-th thread start from some point on fails, or the n-th copy of a task throws, for every n: creation, growth to up to 3 workers with tasks running, and 1-2 calls (thorough: 3) of run_async, run_sync, run_at (due or later) and run_after by one client, or one call by each of two clients; then retries, resizes, further tasks and destruction under both policies', assume=POOLA + ['moving tasks does not throw, and neither do tasks themselves; memory does not run out'])
def p39(deep):
    T = lambda e, std, cov=('checked',), **kw: J('poolex', e, std, {k: v for k, v in kw.items() if k != 'weight'}, list(cov), rt=THR, time=600, weight=kw.get('weight', 1))
    CR = ('checked', 'refused')
    for std in STDS:
        for w in (1, 2, 3): yield T('p39_create', std, CR, W=w, weight=w)
        for w, to, n in ((0, 1, 1), (0, 2, 2), (1, 2, 1), (1, 3, 1)): yield T('p39_grow', std, W=w, to=to, N=n, weight=2)
        yield T('p39_sched', std, CR, W=1, N=2, weight=2); yield T('p39_copy', std, CR, W=1, N=1)
    for w, to, n in ((2, 3, 0), (2, 3, 2), (1, 3, 2)): yield T('p39_grow', 20, W=w, to=to, N=n, weight=5)
    for a in range(5):
        for b in range(5):
            yield T('p39_copy', 20, CR, W=1, N=2, o0=a, o1=b, weight=2)
            if a > 1 and b > 1 and (a <= b): yield T('p39_two', 20, W=1, o0=a, o1=b); yield T('p39_two', 20, W=2, o0=a, o1=b, weight=2)
            yield T('p39_two', 20, W=1, o0=a, o1=b, copy=1)
            if a > 1 or b > 1: yield T('p39_sched', 20, CR, W=2, N=2, o0=a, o1=b, weight=3)
        yield T('p39_copy', 20, CR, W=2, N=1, o0=a, weight=2)
        if a > 1: yield T('p39_sched', 20, CR, W=1, N=3, o0=a, weight=5)
    if deep:
        yield T('p39_create', 20, CR, W=4, weight=20); yield T('p39_grow', 20, W=1, to=4, N=1, weight=30); yield T('p39_grow', 20, W=2, to=4, N=1, weight=30); yield T('p39_grow', 20, W=3, to=4, N=1, weight=30)
        for a in range(5):
            for b in range(5):
                yield T('p39_copy', 20, CR, W=2, N=2, o0=a, o1=b, weight=20); yield T('p39_two', 20, W=2, o0=a, o1=b, copy=1, weight=10); yield T('p39_copy', 20, CR, W=1, N=3, o0=a, o1=b, weight=20)
                if a > 1 or b > 1: yield T('p39_sched', 20, CR, W=1, N=4, o0=a, o1=b, weight=20)
