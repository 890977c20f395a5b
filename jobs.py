"""Jobs per property: harness entry points, their bounds, tiers."""
BUDGET = {'quick': 120, 'thorough': 840}
ASSUME = [
    'libc is replaced by the C models in models/libc.c ("C" locale, UTC); sampled paths are replayed natively against the real libc and compared',
    'malloc never fails; uninitialised memory reads as 0xBE',
    'built without libxml2 (XSD regular expressions are outside the claim)',
]
JOBS = {}
def prop(pid, src, bounds, assume=()):
    JOBS[pid] = dict(src=src, bounds=bounds, assume=list(assume), jobs=[])
def job(pid, entry, name=None, tiers=('quick', 'thorough'), weight=1, time=1e9, samples=12, max_instr=30000000, **args):
    n = name or entry
    if args and not name: n += '-' + '-'.join('%s%s' % kv for kv in sorted(args.items()))
    JOBS[pid]['jobs'].append(dict(name=n, entry=entry, args=args, tiers=tiers, weight=weight, time=time, samples=samples, max_instr=max_instr))
Q, T = ('quick',), ('thorough',)

prop('C08', 'c08.c', 'operation sequences of length N over 9 operations, strings up to L symbolic bytes, start sizes 1..S, thresholds 0..3; two-append growth with start 1..S and lengths below A')
job('C08', 'c08_seq', tiers=Q, N=2, L=2, S=3, weight=5)
for op in range(3):
    for t in (0, 1, 7):
        job('C08', 'c08_grow', tiers=Q, S=9, A=12, op=op, T=t)
        job('C08', 'c08_grow', tiers=T, S=33, A=40, op=op, T=t)
job('C08', 'c08_seq', tiers=T, N=3, L=3, S=4, weight=9)
job('C08', 'c08_zero')

prop('C01', 'c01.c', 'every byte string up to length L per type; literals of up to 25 digits (decimal, hexadecimal, octal) with and without sign and with one arbitrary trailing byte')
for t in range(8):
    for L in range(0, 4): job('C01', 'c01_any', t=t, L=L)
    job('C01', 'c01_any', t=t, L=4, weight=6, tiers=Q if t in (0, 7) else T)
    job('C01', 'c01_any', t=t, L=5, weight=8, tiers=T)
    for p in range(10):
        hi = {8: 5, 16: 7, 32: 11, 64: 20}[[8, 16, 32, 64][t % 4]]
        if p in (6, 7, 9): hi = hi + (3 if t % 4 == 3 else 1)
        job('C01', 'c01_digits', t=t, p=p, lo=1, hi=hi, weight=3, tiers=Q if (p in (0, 1, 3) or t in (3, 7)) else T)
        job('C01', 'c01_digits', t=t, p=p, lo=1, hi=hi + 2, trail=1, weight=4, tiers=T)
job('C01', 'c01_null')

prop('C02', 'c02.c', 'every byte string up to length L with 1..3 fraction digits; digit strings of up to 20 integer and n+1 fraction digits for every n; printing of every 64 bit value with n fraction digits')
for L in range(0, 4): job('C02', 'c02_any', L=L)
job('C02', 'c02_any', L=4, weight=5)
job('C02', 'c02_any', L=5, n=2, weight=9, tiers=T)
for n in range(1, 19):
    for neg in (0, 1):
        job('C02', 'c02_digits', n=n, neg=neg, ahi=20 - n, alo=max(0, 18 - n), weight=4)
        job('C02', 'c02_digits', n=n, neg=neg, ahi=20, alo=0, weight=6, tiers=T)
        job('C02', 'c02_print', n=n, neg=neg, lim=1000, weight=2)
        if neg: job('C02', 'c02_print', n=n, edge=1, weight=2)
        job('C02', 'c02_print', n=n, neg=neg, weight=7, tiers=T)
job('C02', 'c02_badn')

VTN = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'dec64', 'bool', 'rest', 'string', 'interface', 'ipv4addr', 'ipv4prefix', 'ipv6addr', 'ipv6prefix', 'mac', 'url', 'uuid', 'time', 'void', 'empty']
prop('C03', 'c03.c', 'every value of the inline types (IPv6: one arbitrary group in seven address shapes; time: chosen dates with arbitrary microseconds), strings up to L bytes, URL fields up to L-1 bytes; output sizes 0..len+2 (up to 10) and the exact length')
for i, n in enumerate(VTN):
    for m in (0, 1):
        if m and n not in ('dec64', 'ipv4addr', 'ipv4prefix', 'ipv6addr', 'ipv6prefix', 'time'): continue
        wide = n in ('int64', 'uint64', 'dec64')
        for neg in ((0, 1) if n in ('int32', 'int64', 'dec64') else (2,)):
            sfx = '' if neg == 2 else '-neg%d' % neg
            job('C03', 'c03_render', name='c03_render-%s-m%d%s' % (n, m, sfx), t=i, mode=m, neg=neg, L=2, Z=4 if wide else 12, tiers=T if m and (n[:4] == 'ipv4' or n == 'time') else Q, weight=8 if wide else 4)
            job('C03', 'c03_render', name='c03_render-%s-m%d%s-T' % (n, m, sfx), t=i, mode=m, neg=neg, L=3, Z=40, tiers=T, weight=8 if wide else 5)
job('C03', 'c03_max')

prop('C04', 'c04.c', 'every string of length up to L per type; template texts of each type with k arbitrary bytes written over or inserted at every position or up to two bytes deleted; all dates over the digits of two fields; prefix length literals of up to D characters', ['IPv6 text form is that of inet_pton; time zone designators starting with + or - are accepted and ignored as documented; TZ=UTC'])
for t in range(9):
    for L in range(0, 4): job('C04', 'c04_any', t=t, L=L)
    job('C04', 'c04_any', t=t, L=5, tiers=T, weight=4)
    for op in range(3):
        job('C04', 'c04_edit', t=t, op=op, k=1, weight=3)
        if op < 2: job('C04', 'c04_edit', t=t, op=op, k=2, weight=6, tiers=T)
for f in range(4): job('C04', 'c04_date', f=f, weight=4)
for v6 in range(2):
    job('C04', 'c04_mask', v6=v6, D=2, tiers=Q)
    job('C04', 'c04_mask', v6=v6, D=4, tiers=T)

prop('C05', 'c05.c', 'arbitrary values of every numeric type against up to K arbitrary intervals with or without lower bound; strings up to L bytes against up to K arbitrary length intervals; 16 written specifications against every value; up to 10 written intervals')
for t in range(9):
    job('C05', 'c05_range', t=t, K=2, tiers=Q)
    job('C05', 'c05_range', t=t, K=4, tiers=T, weight=3)
for t in range(9):
    job('C05', 'c05_range', t=t, K=2, r=1)
    job('C05', 'c05_range', t=t, K=3, r=1, tiers=Q)
    if t in (0, 4): job('C05', 'c05_range', t=t, K=1, r=1, real=1, weight=5)
    if t in (1, 5): job('C05', 'c05_range', t=t, K=1, r=1, real=1, weight=5, tiers=T)
job('C05', 'c05_length', K=2, L=4)
job('C05', 'c05_spec', weight=3)
job('C05', 'c05_frac')

prop('C30', 'c30.c', 'every subject of up to L bytes against 44 patterns (anchors, alternatives, groups, classes, repetition, invalid ones), direct and inverted; all pairs of six patterns with length limits; written specifications; subjects of up to 1002 characters with one arbitrary byte; alternatives of up to 9 words', ['POSIX engine only: glibc regcomp/regexec is replaced by an NFA model in models/libc.c, cross-checked by native replay'])
for lo in range(0, 44, 4):
    job('C30', 'c30_match', lo=lo, hi=lo + 3, L=4, tiers=Q)
    job('C30', 'c30_match', lo=lo, hi=lo + 3, L=7, tiers=T)
job('C30', 'c30_several', L=3, weight=3)
job('C30', 'c30_spec', L=4)
job('C30', 'c30_long', weight=5)
job('C30', 'c30_longpat', weight=5)

prop('C06', 'c06.c', 'all triples of values of every type (time: chosen seconds plus a symbolic offset and any microseconds), strings up to L bytes; all pairs of types; strings of up to 1002 characters that differ in one arbitrary character anywhere or in length', ['decimals compared have the same number of fraction digits; strings are set; the order of times is only required to be total'])
for i, n in enumerate(VTN):
    big = n in ('string', 'rest', 'interface', 'url')
    job('C06', 'c06_order', name='c06_order-' + n, t=i, L=2 if n != 'url' else 1, weight=3 if big else 1)
    if n in ('string', 'url'): job('C06', 'c06_order', name='c06_order2-' + n, t=i, L=3 if n != 'url' else 2, three=0, weight=3)
    if n == 'string': job('C06', 'c06_order', name='c06_order3-' + n, t=i, L=4, tiers=T, weight=5)
job('C06', 'c06_types')
job('C06', 'c06_long', weight=3)

prop('C07', 'c07.c', 'arbitrary values of every type with arbitrary name, show name, flags and constness, copied three ways; vectors of up to N variables of six types; either side changed, grown or freed first; texts of up to 4097 characters and vectors of up to 141 elements')
for i, n in enumerate(VTN): job('C07', 'c07_dup', name='c07_dup-' + n, t=i, L=1 if n == 'url' else 2)
job('C07', 'c07_vec', N=1)
job('C07', 'c07_vec', N=2, weight=5, tiers=T)
job('C07', 'c07_vec', N=3, weight=9, tiers=T)
job('C07', 'c07_long', weight=4)

prop('C09', 'c09.c', 'every sequence of N operations out of 7 on vectors starting with 0..2 elements, arbitrary one-byte names or none; every position; vectors grown to many elements')
for st in (0, 1, 2):
    job('C09', 'c09_seq', start=st, N=2, tiers=Q, weight=3)
    job('C09', 'c09_seq', start=st, N=3, weight=5)
    job('C09', 'c09_seq', start=st, N=4, tiers=T if st else ('quick', 'thorough'), weight=8)
job('C09', 'c09_find', N=3)
job('C09', 'c09_null')
for st in (17, 65): job('C09', 'c09_seq', name='c09_many-%d' % st, start=st, many=st, N=2 if st < 20 else 1, weight=4)

prop('C10', 'c10.c', 'every line of up to L bytes; lines of up to L characters over blank, tab, quote, backslash and a letter; lines of many and long words')
for L in range(0, 6): job('C10', 'c10_split', L=L, weight=L)
for L in (6, 7): job('C10', 'c10_split', L=L, set=1, weight=L)
for L in (6, 7): job('C10', 'c10_split', L=L, tiers=T, weight=L)
for L in (8, 9): job('C10', 'c10_split', L=L, set=1, tiers=T, weight=L)
for L in range(0, 8): job('C10', 'c10_unescape', L=L)
for m in (9, 40): job('C10', 'c10_split', name='c10_many-%d' % m, many=m, L=4, weight=4)

prop('C12', 'c12.c', 'every line of up to L bytes, comment character # or none; longer lines over blanks, newline, quote, backslash, # and a letter; lines of up to 1000 characters with L arbitrary ones at the start, in the middle or at the end')
for L in range(0, 7):
    job('C12', 'c12_trim', L=L, weight=L)
    job('C12', 'c12_trim', L=L, c=0, weight=L)
for L in (7, 8): job('C12', 'c12_trim', L=L, set=1, weight=L)
for L in (7, 8): job('C12', 'c12_trim', L=L, tiers=T, weight=L)
for L in (9, 10): job('C12', 'c12_trim', L=L, set=1, tiers=T, weight=L)
for L in range(1, 7): job('C12', 'c12_words', L=L)
job('C12', 'c12_long', weight=4)

prop('C15', 'c15.c', 'four trees of keywords and variables with common prefixes, depth up to 3; every line of up to K words of up to L bytes (any byte that is not blank, quote, backslash or newline), longer ones over the letters of the tree; trees of many and long keywords')
for t in range(4):
    for o in range(3): job('C15', 'c15_match', tree=t, order=o, K=3, L=3, weight=4)
    job('C15', 'c15_match', tree=t, K=4, L=4, set=1, weight=4)
    job('C15', 'c15_match', tree=t, K=4, L=4, weight=5, tiers=T if t == 2 else ('quick', 'thorough'))
    job('C15', 'c15_match', tree=t, K=4, L=6, set=1, weight=6, tiers=T)

for b, n, d in ((30, 40, 2), (70, 12, 9), (140, 20, 0)): job('C15', 'c15_big', base=b, N=n, D=d, weight=4)

prop('C16', 'c16.c', 'three trees with keywords and variables of 13 types; every line of up to K words of up to L bytes (any byte not blank, quote, backslash or newline), longer over chosen letters; texts of the long types with one arbitrary byte at any position; all combinations of the two options; lines of many and long words')
for t in range(3):
    if t != 1:
        job('C16', 'c16_vars', tree=t, K=2, L=4, weight=4)
        job('C16', 'c16_vars', tree=t, K=4, L=3, set=1, weight=5, tiers=Q)
    else:   # the same lines as K=2, L=2 and K=2, L=3 over a set, in parts
        job('C16', 'c16_vars', tree=t, k=1, L=2, weight=4)
        job('C16', 'c16_vars', tree=t, k=1, L=3, set=1, weight=4, tiers=Q)
        for n in (1, 2):
            for m in (1, 2): job('C16', 'c16_vars', tree=t, k=2, n1=n, n2=m, L=2, weight=4 + n + m)
        for n in (1, 2, 3):
            for m in (1, 2, 3): job('C16', 'c16_vars', tree=t, k=2, n1=n, n2=m, L=3, set=1, weight=3 + n + m, tiers=Q)
    job('C16', 'c16_vars', tree=t, K=3 if t == 1 else 4, L=4 - (t == 1), set=1, weight=9, tiers=T)
    job('C16', 'c16_vars', tree=t, K=2 if t == 1 else 4, L=3, weight=9, tiers=T)
job('C16', 'c16_texts', weight=5)
job('C16', 'c16_big', V=9, L=60, weight=4)
job('C16', 'c16_big', V=16, L=130, weight=4)
job('C16', 'c16_big', V=1, L=190, weight=4)

prop('C17', 'c17.c', 'all pairs of 32 variable declarations, with and without a keyword, explicit preference, both declaration orders; words of up to L bytes or characters of a set and 14 longer texts; the four preference modes, last and inner words, for the 9 declarations that share a preference')
for lo in range(0, 32, 4):
    job('C17', 'c17_pair', lo=lo, hi=min(lo + 3, 31), L=2, weight=3)
    job('C17', 'c17_pair', lo=lo, hi=min(lo + 3, 31), L=1, prefs=4, weight=3, tiers=Q)
    job('C17', 'c17_pair', lo=lo, hi=min(lo + 3, 31), L=3, long=0, all=1, prefs=2, tiers=T, weight=9)
    job('C17', 'c17_pair', lo=lo, hi=min(lo + 3, 31), L=2, prefs=4, tiers=T, weight=8)
for a in range(9):
    job('C17', 'c17_pair', lo=a, hi=a, bhi=8, L=2, modes=4, weight=3)
    job('C17', 'c17_pair', lo=a, hi=a, bhi=8, L=3, all=1, modes=4, tiers=T, weight=9)

prop('C20', 'c20.c', 'six specifications with all kinds of operators, references and variables, and every specification of N parts (words, variables, references, operators, options) in three surroundings; every line of up to L bytes, longer ones over chosen characters; parsed twice and read through the terminal')
for sh in range(3):
    job('C20', 'c20_parts', N=2, shape=sh, L=3, weight=4)
    for f in range(22): job('C20', 'c20_parts', N=3, shape=sh, L=3, first=f, weight=4, tiers=T)
for k in range(6):
    for L in range(0, 4): job('C20', 'c20_line', spec=k, L=L, weight=L)
    job('C20', 'c20_line', spec=k, L=5, set=1, weight=5)
    job('C20', 'c20_line', spec=k, L=6, set=2, weight=6)
    job('C20', 'c20_eval', spec=k, L=3, weight=3)
    job('C20', 'c20_line', spec=k, L=5, weight=8, tiers=T)
    job('C20', 'c20_line', spec=k, L=7, set=1, weight=8, tiers=T)
    job('C20', 'c20_line', spec=k, L=8, set=2, weight=8, tiers=T)

prop('C11', 'c11.c', 'every value of up to L bytes without double quote, newline or comment character at its start; two values offered by an expansion, every prefix of the text offered; values of up to 1002 characters with one arbitrary byte')
for L in range(1, 6):
    job('C11', 'c11_string', L=L, weight=L)
    job('C11', 'c11_string', L=L, comment=0, weight=L)
    job('C11', 'c11_form', L=L, weight=L)
job('C11', 'c11_form', L=0)
for L in (1, 2):
    for M in (1, 2): job('C11', 'c11_expand', L=L, M=M, weight=3)
for L in (1, 2, 3):
    for M in (1, 2): job('C11', 'c11_complete', L=L, M=M, weight=3)
for L in (6, 7): job('C11', 'c11_string', L=L, set=1, weight=6)
job('C11', 'c11_complete', L=4, M=2, set=1, weight=6, tiers=T)
for L in (6, 7): job('C11', 'c11_string', L=L, weight=8, tiers=T)
job('C11', 'c11_expand', L=3, M=3, weight=8, tiers=T)
job('C11', 'c11_expand', L=4, M=4, set=1, weight=8, tiers=T)
job('C11', 'c11_complete', L=4, M=4, set=1, weight=8, tiers=T)
job('C11', 'c11_long', weight=4)

prop('C18', 'c18.c', 'three trees with hidden commands, help texts, variables; every partial line of up to K words of up to L printable characters (no quote, backslash, question mark), longer ones over the letters of the tree, followed by up to R characters after the cursor; tab modes; keywords around the size of the line buffer; up to 70 keywords with up to 63 characters in common')
for t in range(3):
    job('C18', 'c18_tab', tree=t, K=2, L=2, R=1, weight=5)
    job('C18', 'c18_tab', tree=t, K=3, L=3, R=0, set=1, weight=6, tiers=T)
    job('C18', 'c18_steps', tree=t, K=2, L=2, weight=4)
job('C18', 'c18_tab', tree=1, K=1, L=3, R=0, nocase=1, weight=5)
job('C18', 'c18_long', weight=5)
job('C18', 'c18_many', weight=6)
for L in (1, 2, 3): job('C18', 'c18_quoted', L=L)

prop('C19', 'c19.c', 'four trees with hidden commands, help texts of several lines and names longer than the minimum column; every partial line of up to K words of up to L printable characters, followed by a question mark or TAB in short or long form; terminal widths, number of help lines, truncation; up to 40 commands, names of up to 60 characters and help texts of up to 12 lines of 150 characters on terminals 21 to 170 wide')
for t in range(4):
    job('C19', 'c19_help', tree=t, empty=1, W=4)
    job('C19', 'c19_help', tree=t, K=2, L=1, W=2, weight=4)
    job('C19', 'c19_help', tree=t, K=1, L=3, W=1, weight=4)
    job('C19', 'c19_help', tree=t, K=3, L=3, W=1, set=1, weight=9, tiers=T)
    job('C19', 'c19_help', tree=t, K=2, L=2, W=4, weight=9, tiers=T)
job('C19', 'c19_expand', N=3, weight=4)
for p in (0, 1): job('C19', 'c19_big', part=p, weight=6)

NP21, NS21 = 18, 6
prop('C21', 'c21.c', '18 specifications with sequences, groups, choices, optional parts and nesting, 6 with sets, each against its written-out form; every line of up to K words of up to L bytes, and of more words over the letters of the specification; 4 to 6 free tokens out of a b ( ) [ ] | in five surroundings with a callback, against an independent recognizer of the operators: every line of up to 3 words, which also ends at the callback exactly once')
for k in range(NP21):
    job('C21', 'c21_ops', p=k, K=3, L=1, weight=3)
    job('C21', 'c21_ops', p=k, K=4, L=2, set=1, weight=3)
for k in range(NS21):
    job('C21', 'c21_sets', p=k, K=3, L=1, weight=3)
    job('C21', 'c21_sets', p=k, K=4, L=2, set=1, weight=3)
job('C21', 'c21_lang', N=5, weight=5)
job('C21', 'c21_lang', N=6, tiers=Q, weight=7)
job('C21', 'c21_lang', N=7, tiers=T, time=600, weight=7)
for sh in range(1, 5):
    job('C21', 'c21_lang', N=4, shape=sh, weight=4)
    job('C21', 'c21_lang', N=5, shape=sh, tiers=T, time=300, weight=5)
    job('C21', 'c21_lang', N=6, shape=sh, tiers=T, time=600, weight=6)

prop('C13', 'c13.c', 'N objects of 13 kinds with arbitrary names over four letters, up to six different restrictions per kind (one or two intervals, patterns, arguments), every pair of insertion orders; trees of such objects and empty members put together in any order and sorted, with and without what is below')
for k in range(13): job('C13', 'c13_insert', N=3, k0=k, weight=4)
job('C13', 'c13_insert', N=3, kinds=1, L=2, weight=4)
for k in (4, 5, 7, 8, 9, 10):
    job('C13', 'c13_insert', N=3, only=k, V=6, L=1, weight=3)
job('C13', 'c13_insert', N=4, kinds=1, weight=4)
for k in (2, 13): job('C13', 'c13_sort', N=3, kinds=k, weight=4)
job('C13', 'c13_sort', N=4, kinds=1, weight=4)
job('C13', 'c13_insert', N=4, kinds=3, tiers=T, weight=9)
job('C13', 'c13_insert', N=4, kinds=1, L=2, tiers=T, weight=9)
for st in (1, 7, 39): job('C13', 'c13_big', N=40, base=40, step=st, weight=2)
job('C13', 'c13_big', N=20, base=140, step=3, weight=2)

prop('C14', 'c14.c', 'every sequence of N edits (append, insert, delete, clear, truncate, any position from -1 to one past the end) on trees of 0..2 children; every tree of up to T objects of 11 kinds copied as a whole and object by object, and visited down to any depth with an error or an early end at any object; every pair of keyword trees of up to A and B objects merged', ['truncation frees the children cut off but not their sub-trees (as its callers need)'])
for st in (0, 1, 2): job('C14', 'c14_edit', start=st, N=3, weight=4)
job('C14', 'c14_edit', start=0, N=4, tiers=T, weight=8)
job('C14', 'c14_edit', start=1, N=4, tiers=T, weight=9)
for k in range(11): job('C14', 'c14_copy', T=2, k0=k, weight=2)
for k in range(11): job('C14', 'c14_copy', T=3, k0=k, tiers=T, weight=6)
job('C14', 'c14_copy', T=4, kinds=2, weight=5)
job('C14', 'c14_apply', T=4, kinds=1, weight=3)
job('C14', 'c14_apply', T=2, weight=3)
job('C14', 'c14_apply', T=3, tiers=T, weight=6)
for a in (1, 2, 3): job('C14', 'c14_merge', A=a, B=3, weight=4)
job('C14', 'c14_merge', A=3, B=2, weight=4)
for a in (1, 2): job('C14', 'c14_merge', A=a, B=2, at=1, weight=4)
job('C14', 'c14_merge', A=2, B=3, at=1, tiers=T, weight=8)
job('C14', 'c14_top', N=4, weight=2)
job('C14', 'c14_top', N=6, tiers=T, weight=5)

prop('C29', 'c29.c', 'three trees with keywords of mixed case, prefixes and characters next to the letters in the character table, variables of types bool and string; every line of up to K words of up to L bytes in either mode, and every pair of lines that differ in the case of any letters (match, values, completion); keywords of up to 129 characters with case flipped anywhere and one arbitrary character', ['keywords of one tree differ in more than letter case'])
job('C29', 'c29_long', weight=4)
for t in range(3):
    job('C29', 'c29_match', tree=t, K=2, L=3, weight=4)
    job('C29', 'c29_match', tree=t, order=1, K=3, L=2, weight=4)
    job('C29', 'c29_match', tree=t, K=3, L=4, set=1, weight=5)
    job('C29', 'c29_match', tree=t, K=3, L=3, weight=5)
    job('C29', 'c29_pair', tree=t, K=2, L=2, weight=4)
    job('C29', 'c29_pair', tree=t, K=3, L=2, set=1, weight=5)
    job('C29', 'c29_pair', tree=t, K=2, L=3, weight=5)
    job('C29', 'c29_match', tree=t, K=4, L=3, tiers=T, weight=8)
    job('C29', 'c29_match', tree=t, K=4, L=5, set=1, tiers=T, weight=8)
    job('C29', 'c29_pair', tree=t, K=4, L=3, set=1, tiers=T, weight=9)
    job('C29', 'c29_pair', tree=t, K=3, L=3, tiers=T, weight=9)

NP22 = 25
QT = ('quick', 'thorough')
prop('C22', 'c22.c', '25 families of trees with references (callbacks with and without arguments, removed and hidden labels, filters at several levels, direct and deep nesting, recursion in a sub-menu or at the top of a tree, choices, overlapping trees), each against the tree written out; every line of up to K words of up to L bytes, and of more words over the letters of the trees; each line entered repeatedly; chains of references', ['recursion is compared up to the number of words of a line', 'callbacks of directly nested references that both name a callback are not compared'])
for k in range(NP22):
    job('C22', 'c22_ref', p=k, K=3, L=1, weight=3)
    job('C22', 'c22_ref', p=k, K=4, L=1, set=1, weight=4)
    job('C22', 'c22_ref', p=k, K=4, L=2, set=1, tiers=T, weight=6)
    job('C22', 'c22_ref', p=k, K=4, L=1, tiers=T, weight=6)
job('C22', 'c22_wrap', K=4, L=1, weight=4)
job('C22', 'c22_chain', N=7, weight=3)
job('C22', 'c22_chain', N=4, base=70, weight=3)

prop('C23', 'c23.c', 'choice variables and expansion callbacks with up to 3 members of up to 3 arbitrary characters (printable, not special to words or lists), next to another variable or alone, with or without a following keyword; a choice beside another choice or a dynamic variable, whose values may coincide, with or without a keyword (as the last word); every word of up to L such characters; the offer changes between two lines; many and long members', ['values with blanks and quotes are subject of C11'])
for dyn in (0, 1):
    job('C23', 'c23_both', dyn=dyn, lens=21, lens2=2, L=2, weight=3)
    job('C23', 'c23_both', dyn=dyn, kw=1, lens=12, lens2=2, L=2, set=1, weight=3)
    job('C23', 'c23_both', dyn=dyn, kw=1, lens=21, lens2=2, L=2, weight=5, tiers=T)
    job('C23', 'c23_both', dyn=dyn, lens=21, lens2=12, L=2, set=1, weight=3)
    job('C23', 'c23_both', dyn=dyn, lens=21, lens2=12, L=2, tiers=T, weight=8)
for lens in (1, 2, 11, 12, 22, 111, 112):
    for L in (1, 2, 3):
        job('C23', 'c23_choice', lens=lens, L=L, weight=3)
        job('C23', 'c23_choice', lens=lens, L=L, num=1, weight=3, tiers=QT if lens < 20 else T)
        job('C23', 'c23_choice', lens=lens, L=L, num=2, set=4)
        job('C23', 'c23_expand', lens=lens, L=L, weight=lens // 20 + 1, tiers=QT if lens < 20 or L == 2 else T)
    job('C23', 'c23_expand', lens=lens, L=2, free=1, weight=4, tiers=QT if lens < 100 else T)
    job('C23', 'c23_help', lens=lens)
for lens in (122, 222, 123):
    job('C23', 'c23_expand', lens=lens, L=3, weight=9, set=2, tiers=T)
    for L in (2, 3): job('C23', 'c23_choice', lens=lens, L=L, tiers=T, weight=8)
job('C23', 'c23_big', N=22, base=40, A=6, weight=3)
job('C23', 'c23_big', N=9, base=140, A=11, weight=3)

prop('C24', 'c24.c', 'commands with up to 3 callbacks (thorough 4) of up to 2 arguments each with any first character, every combination of callback results (any int), with and without wrapper and user handle, evaluated twice; unknown callbacks at every position; typed, unquoted and empty arguments of callbacks and expansions; translated values of up to 3 letters; lines read from the terminal; many callbacks and arguments', ['callback function names are fixed', 'output pipes (fork) are outside'])
job('C24', 'c24_eval', n=2, weight=4)
job('C24', 'c24_eval', n=3, weight=6)
job('C24', 'c24_bind')
job('C24', 'c24_typed')
job('C24', 'c24_translate', L=2)
job('C24', 'c24_translate', L=4, tiers=T)
job('C24', 'c24_read')
job('C24', 'c24_big', C=9, A=7, base=60)
job('C24', 'c24_big', C=12, A=3, base=200)

prop('C25', 'c25.c', 'every sequence of K operations (add a line of up to L bytes, previous, next, resize) on histories of 1 to N lines, each followed by a walk over all lines in both directions; rings wrapped up to 3 times; saved and loaded histories of every small size; the same through the terminal with each kind of arrow key', ['lines saved to a file do not contain a newline'])
job('C25', 'c25_ops', K=3, L=1, set=0, N=2, weight=3)
job('C25', 'c25_ops', K=4, L=1, set=1, N=3, weight=5)
job('C25', 'c25_ops', K=2, L=3, set=2, N=2, ops=1, weight=4)
job('C25', 'c25_ops', K=5, L=1, set=1, N=3, ops=3, weight=5)
job('C25', 'c25_wrap', N=4, A=10, weight=3)
job('C25', 'c25_file', K=2, L=2, set=0, N=3, weight=4)
job('C25', 'c25_file', K=3, L=1, set=1, N=3, weight=4)
job('C25', 'c25_keys', N=2, K=3, weight=4)
job('C25', 'c25_long', w=5)
job('C25', 'c25_long', base=256, w=5)
job('C25', 'c25_long', base=1024, w=5)
job('C25', 'c25_ops', K=6, L=1, set=1, N=3, tiers=T, weight=8)
job('C25', 'c25_ops', K=4, L=2, set=0, N=3, ops=1, tiers=T, weight=8)
job('C25', 'c25_ops', K=4, L=3, set=2, N=3, ops=1, tiers=T, weight=8)
job('C25', 'c25_keys', N=3, K=4, tiers=T, weight=7)

prop('C26', 'c26.c', 'every sequence of up to K editing keys (25 kinds, any printable character, escapes, keys without meaning) from every short line with every cursor, kill buffer and mode, in scrolling and wrapping mode, followed by a marker character; lines growing through the buffer sizes; multi-byte characters; any K bytes after several prefixes with and without history; incremental searches of histories of n distinct lines; and what a terminal of W columns shows, with lines shorter and longer than it', ['signal characters and the TAB and ? keys are covered by other properties or excluded', 'the screen is compared in scrolling mode'])
job('C26', 'c26_edit', K=1, n=3, weight=5)
job('C26', 'c26_edit', K=2, n=1, kl=2, weight=5)
job('C26', 'c26_keys', K=3, alpha=2, weight=5)
job('C26', 'c26_keys', K=3, utf8=1, weight=5)
job('C26', 'c26_grow', K=1, weight=5)
job('C26', 'c26_grow', K=1, base=125, weight=5)
job('C26', 'c26_screen', K=1, weight=5)
job('C26', 'c26_screen', K=1, base=8, span=26, prompts=2, weight=5)
job('C26', 'c26_prompt', K=1, n=1, weight=5)
job('C26', 'c26_any', K=2, weight=5)
job('C26', 'c26_search', K=2, np=1, n=2, weight=5)
job('C26', 'c26_search', K=2, np=1, tiers=T, weight=7)
job('C26', 'c26_search', K=3, np=1, n=2, tiers=T, weight=7)
job('C26', 'c26_search', K=1, np=2, weight=5)
job('C26', 'c26_longsearch', K=3, base=98, weight=4)
job('C26', 'c26_longsearch', K=5, base=95, tiers=T, weight=6)
job('C26', 'c26_edit', K=2, n=3, kl=2, tiers=T, weight=9)
job('C26', 'c26_keys', K=4, alpha=2, tiers=T, weight=10)
job('C26', 'c26_grow', K=2, span=3, base=63, tiers=T, weight=8)
job('C26', 'c26_screen', K=2, base=8, span=26, prompts=2, tiers=T, weight=9)
job('C26', 'c26_screen', K=2, tiers=T, weight=8)
job('C26', 'c26_screen', K=1, base=20, span=70, W=40, tiers=T, weight=8)
job('C26', 'c26_any', K=3, tiers=T, weight=10)
job('C26', 'c26_prompt', K=1, n=2, tiers=T, weight=8)
job('C26', 'c26_search', K=3, np=2, tiers=T, weight=8)

prop('C28', 'c28.c', 'texts of m runs of 0 to 43 characters on a terminal 21 wide, each with or without a newline, split over calls at every run boundary or inside, 1 to 4 rows, every byte as answer to the first prompts (later ones continue); the width changed between two calls; output without paging; texts of 40 to 121 lines on screens of 2 to 50 rows and 80 to 511 columns', ['texts are printable characters and newlines'])
for r in (1, 2, 3):
    job('C28', 'c28_page', m=2, rows=1, row0=r, answers=2, weight=4)
job('C28', 'c28_page', m=3, rows=2, row0=2, lens=4, answers=1, weight=5)
job('C28', 'c28_page', m=2, rows=2, row0=2, basic=1, weight=4)
job('C28', 'c28_resize', weight=4)
job('C28', 'c28_plain', m=2)
job('C28', 'c28_page', m=3, rows=2, row0=2, lens=6, answers=2, tiers=T, weight=9)
job('C28', 'c28_page', m=3, rows=1, row0=1, lens=6, answers=2, tiers=T, weight=9)
job('C28', 'c28_page', m=4, rows=2, row0=2, lens=4, answers=1, tiers=T, weight=9)
for o in (0, 1): job('C28', 'c28_big', over=o, weight=5)

prop('C31', 'c31.c', 'every sequence of K operations (add, activate, rename, set or clear prompt and pipe) on named trees with names of up to L bytes, or of 15 to 256 bytes that differ at the end; specifications of up to 3 named trees; every sequence of K alias additions (5 trees, ordinary, new and unusable names, commands of up to C bytes and help texts of any bytes); commands run through an alias; every sequence of K edit, up, top and run commands at a working point; many trees', ['two trees of the same name: the first is found'])
job('C31', 'c31_reg', K=3, L=1, set=0, ops=2, weight=3)
job('C31', 'c31_reg', K=3, L=1, set=1, ops=5, weight=3)
job('C31', 'c31_spec', weight=3)
for pre in (15, 63, 255): job('C31', 'c31_reg', K=2, L=1, set=1, ops=5, pre=pre, weight=3)
for t in range(5):
    job('C31', 'c31_alias', K=2, C=1, tree=t, weight=3)
job('C31', 'c31_alias', K=2, C=2, tree=0, set=1, weight=3)
job('C31', 'c31_call', L=1, weight=2)
job('C31', 'c31_wp', K=3, weight=3)
job('C31', 'c31_reg', K=4, L=1, set=1, ops=5, tiers=T, weight=7)
job('C31', 'c31_reg', K=3, L=2, set=0, ops=2, tiers=T, weight=7)
job('C31', 'c31_alias', K=3, C=2, tree=0, set=0, tiers=T, weight=7)
job('C31', 'c31_alias', K=3, C=1, tree=3, set=0, tiers=T, weight=7)
job('C31', 'c31_call', L=2, tiers=T, weight=5)
job('C31', 'c31_wp', K=3, deep=1, tiers=T, weight=7)
job('C31', 'c31_wp', K=4, tiers=T, weight=7)
job('C31', 'c31_reg', name='c31_many', K=2, L=1, set=1, ops=5, many=17, weight=3)

prop('C32', 'c32.c', 'every sequence of K settings of two handles (32 settings, any value) with all settings of both read back after each; every window size; K lines of lengths around the buffer sizes typed and killed on two handles; every sequence of K registrations of D descriptors, then input with every descriptor ready, one that unregisters itself or one that fails; up to 13 exit characters', ['strings are not set to their own current pointer', 'a window 65535 columns wide reads as unlimited', 'exit characters are control characters, at most 8 take effect', 'descriptors are below FD_SETSIZE'])
job('C32', 'c32_set', K=1, L=2, weight=2)
job('C32', 'c32_set', K=2, L=1, weight=6)
job('C32', 'c32_winsize')
job('C32', 'c32_lines', K=2, weight=3)
job('C32', 'c32_lines', K=3, lens=4, weight=4)
job('C32', 'c32_prompt')
job('C32', 'c32_fds', K=4, D=2, weight=4)
job('C32', 'c32_fds', K=3, D=3, weight=4)
job('C32', 'c32_exitchar', n=2, weight=3)
job('C32', 'c32_exitchar', n=8, weight=3)
job('C32', 'c32_exitchar', n=13, weight=3)
job('C32', 'c32_lines', K=4, lens=5, tiers=T, weight=7)
job('C32', 'c32_fds', K=4, D=3, tiers=T, weight=8)
job('C32', 'c32_exitchar', n=3, tiers=T, weight=5)
job('C32', 'c32_set', K=2, L=3, tiers=T, weight=6)

prop('C27', 'c27.c', '14 specification templates (choices, help, callbacks, ranges, lengths, choice values, decimal64, regexp, translate, globals, tree references, comments, escapes, variables) with 1 arbitrary byte (2 in the thorough tier) overwriting or inserted at every position: parsed, printed, matched against two lines and freed, nothing leaked from an accepted text; 5 and 6 free tokens out of a b ( ) [ ] | { } ; in five surroundings: accepted exactly when balanced, and every line of one or two words accepted exactly when the operators mean it; every sequence of K assignments (global, local, pipe, tree name) and commands; nesting up to 45 levels deep, closed or not; assignments to globals, local variables and trees',
     'memory released after a refused text is not claimed; specifications read from files and the option -D debugging output are outside')
for t in range(14):
    for op in (0, 1):
        job('C27', 'c27_bytes', tpl=t, op=op, weight=4)
        job('C27', 'c27_bytes', name='c27_bytes-%d-%d-k2' % (t, op), tiers=T, tpl=t, op=op, k=2, time=400)
job('C27', 'c27_ops', N=5)
job('C27', 'c27_ops', N=6, weight=6)
for sh in range(1,5): job('C27', 'c27_ops', N=5, shape=sh)
for op in (0, 1, 2): job('C27', 'c27_type', op=op)
job('C27', 'c27_type', op=0, named=0)
job('C27', 'c27_type', tiers=T, op=0, k=2, time=300)
job('C27', 'c27_type', tiers=T, op=1, k=2, time=300)
for t in range(10):
    job('C27', 'c27_bounds', type=t, n=3, form=t % 3)
    job('C27', 'c27_bounds', tiers=T, type=t, n=4, form=(t + 1) % 3, time=300)
    if t in (2, 3, 6, 7, 8, 9): job('C27', 'c27_bounds', type=t, n=2, pre=1, form=t % 3)
job('C27', 'c27_opts', K=2)
job('C27', 'c27_assign', K=4, weight=4)
job('C27', 'c27_assign', K=5, tiers=T, time=300)
job('C27', 'c27_opts', tiers=T, K=3, time=300)
for sh in range(1,5): job('C27', 'c27_ops', tiers=T, N=6, shape=sh, time=300)
job('C27', 'c27_deep', weight=5)

prop('C33', 'c33.c', '16 specification templates (nesting, help texts, callbacks with typed arguments, choices, ranges, lengths, choice values, decimal64, patterns, expansion and translation functions, preferences, sets, references, local variables, hidden commands, escaped names) with one arbitrary byte, or one of the 30 characters the lexer tells apart and one arbitrary byte, overwriting or inserted at every position; up to 7 free tokens out of a b ( ) | { } ; @{; bounds of every numeric type: the print is accepted, gives a tree equal in every attribute, and prints the same again, and the short print names every command; one optional keyword, variable or reference anywhere in a line; nesting up to 30 levels, up to 33 siblings, names of up to 73 and help texts of 130 characters, nine callbacks, nine intervals, 70 members of a choice', 'optional parts of several words are outside (the print of [a b] is documented as approximate), so are texts with no place in a specification (empty names, a backslash at the end of a text, operators in function names); the name of the tree and global assignments are not part of a tree')
for t in range(16):
    job('C33', 'c33_bytes', tpl=t, op=2)
    job('C33', 'c33_bytes', tpl=t, op=0, weight=4)
    job('C33', 'c33_bytes', tpl=t, op=1, weight=4)
    job('C33', 'c33_bytes', name='c33_bytes-%d-k2' % t, tpl=t, op=t % 2, k=2, time=300)
job('C33', 'c33_opt')
job('C33', 'c33_ops', N=5)
job('C33', 'c33_ops', N=6)
job('C33', 'c33_ops', N=7, weight=7)
job('C33', 'c33_ops', N=8, tiers=T, time=600)
for t in range(10): job('C33', 'c33_num', type=t, n=1 if t == 8 else 2)
for k in range(4): job('C33', 'c33_big', kind=k, weight=6)

prop('C34', 'c34.c', 'four specifications (default pipe tree, explicit reference, through a referenced tree, explicit instead of default), two commands with two callbacks, three pipe commands; arbitrary bytes in the typed values (of 6), in up to 4 bytes of output of the callbacks and up to 3 bytes of output of the pipe function in any pieces; every exit status, a signal, failing callbacks, a pipe function that stops reading, failing system calls; up to 9000 characters of output in either direction, in pieces, with short writes and with pauses of the pipe function', 'one process is executed, the other scripted: its output comes after its end of input, not later than the time limit between pieces; one pipe function per command; system calls as in harness/env.c')
for f in range(4):
    job('C34', 'c34_parent', name='c34_parent-%d' % f, form=f, weight=4)
    if f < 2: job('C34', 'c34_big', form=f, weight=4)
    job('C34', 'c34_child', name='c34_child-%d' % f, form=f, weight=1)
    job('C34', 'c34_parent', name='c34_parent-tty-%d' % f, form=f, tty=1, weight=9, tiers=T)

prop('C35', 'c35.c', '10 specification templates with every construct (nesting, help texts, callbacks with typed arguments, local and global assignments, choices, options, ranges, lengths, patterns, choice values, sets, references, named trees, expansion and translation functions): a blank, tab, newline, CR LF or comment with 3 (thorough: 6) arbitrary bytes at every place between two tokens, at two neighbouring places, and with all other places filled with newlines or CR LF; the line number of an error after them', 'comments begin after a blank and are outside of < >; expansion arguments are quoted')
for t in range(10):
    job('C35', 'c35_gap', tpl=t, n=3)
    job('C35', 'c35_gap', name='c35_gap-all1-%d' % t, tpl=t, n=1, all=1)
    job('C35', 'c35_gap', name='c35_gap-all2-%d' % t, tpl=t, n=1, all=2)
    job('C35', 'c35_gap', name='c35_gap-two-%d' % t, tpl=t, n=1, two=1)
    job('C35', 'c35_gap', name='c35_gap-bad-%d' % t, tpl=t, n=1, two=1, bad=1)
    job('C35', 'c35_gap', name='c35_gap-deep-%d' % t, tiers=T, tpl=t, n=3, two=1, time=300)
    job('C35', 'c35_gap', name='c35_gap-long-%d' % t, tiers=T, tpl=t, n=6, time=300)

prop('C36', 'c36.c', 'files of every length within 14 bytes of 1024, 2048 and 4096 (padding of blanks, newlines, commands or comments), ending in texts with an arbitrary letter; 4 files with up to 3 (thorough: 4) arbitrary bytes, null bytes and bytes above 127 included; 10 texts with and without a tree name, a tree and assignments to fill; a read error after every number of bytes', ['files as a stream: position and text mode are not considered', 'running out of memory'])
for b, k in ((1024, 0), (1024, 1), (1024, 2), (2048, 3), (2048, 0), (4096, 0)):
    job('C36', 'c36_size', name='c36_size-%d-%d' % (b, k), base=b, pad=k, weight=4)
job('C36', 'c36_bytes', n=2, weight=4)
job('C36', 'c36_bytes', n=3, weight=6, tiers=T)
job('C36', 'c36_ways')
job('C36', 'c36_error')

prop('C37', 'c37.c', 'any initial attributes (all flags, VMIN, VTIME); sessions of up to K keys of 19 kinds and one arbitrary byte, with and without paged help; each signal key with any character; failing hooks; K interruptions and descriptor events at any wait and one interrupted read, for 6 key sequences, with each kind of interrupt hook', ['signals arrive while waiting, as EINTR', 'signal handlers return (the process is not stopped or ended)'])
job('C37', 'c37_keys', K=2, weight=6)
job('C37', 'c37_page', weight=6)
job('C37', 'c37_signal')
job('C37', 'c37_error')
job('C37', 'c37_wait', K=2, weight=5)
job('C37', 'c37_abandon')
job('C37', 'c37_echo')
job('C37', 'c37_keys', K=3, weight=7, tiers=T)
job('C37', 'c37_wait', K=3, R=2, weight=7, tiers=T)

prop('C38', 'c38.c', 'every sequence of K lines out of 17 kinds (blank, comment, commands with arbitrary letters or numbers, abbreviated, ambiguous, unknown, quoted, failing, quitting, ended by CR), then end of file, also within a line; failing history functions; no tree; sessions of 120 lines, one of them any of the kinds', ['one specification; editing keys, help and completion are covered by C18, C19 and C26'])
job('C38', 'c38_loop', K=2, weight=5)
job('C38', 'c38_loop', K=3, weight=7, tiers=T)
job('C38', 'c38_error')
for a in (1, 2): job('C38', 'c38_many', at=a, weight=6)
