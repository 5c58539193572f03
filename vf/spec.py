"""The properties' runs: which harness, over which inputs, in which memory mode, per tier."""
from runner import Run
COMMON = ['malloc succeeds and sizes stay below 2^31', 'handles are used as the API admits: no null handles, no handles into emptied containers, no value put inside itself, Fast operations within one allocator', 'strtod and the formatting of doubles are uninterpreted functions of their whole text or value, with strtod(format(d)) = d', 'x86-64, clang 18 -O0 IR']
PROPS = {}
S = lambda x: '"' + x.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('?', '\\?') + '"'
def tpl(t): return 'TPL=' + ','.join(S(x) for x in t)
AR = ['accepted', 'rejected']
# ~ is an arbitrary byte
TP = ['{"a":1,~~~}', '{"a"~:~"b"~}', '[1~,2~]~', '{"k":[~],"m":~}', '[{"a":~},{~}]', '[[~]~]~]', '{"a":{"b":~}~}', '"~~~~"', '{"~~~":0}', '[true~false~]', '~null~', '[-~.~e~]', '["",~"",{}]~', '{"":~,"":[~]}', '[[],{},~,[]~', 'tru~ ', 'fals~', 'nul~~', '[nul~,fals~,tru~]', '[n~ll,t~ue,f~lse]', '-~~~~', '0~~~~', '1.~~~', '1e~~~', '[1 ~]', '{"a":1 ~"b":2}', '[~1]', '{~"a":1}', ' ~ ~ ', '1~2~']
TU = ['"\\u~~~~"', '"\\uD~~~\\u~~~~"', '"\\ud8~0\\uD~~0"', '"\\uDBFF\\u~~~~"', '"\\uD800~~DC00"', '"\\~~~~~"', '{"\\u~~~~":0}', '{"\\uD8~~\\u~~~~":0}', '["\\u00~~\\u~~41"]', '"a\\u~~~~b~"']
SIZ = '1,2,3,7,8,9,15,16,17,31,32,33,63,64,65,100,127,128,129,200,255,256,257,300'
BIG = '511,512,513,999,1000,1001,1023,1024,1025,2000'
HUGE = '4095,4096,4097,10000'
def parse_runs(t, checks, kinds, iso=True, lens=(5, 7), deep=(6, 8)):
    q = t == 'quick'; n, m = lens if q else deep; d = list(checks)
    R = lambda name, defs, **k: Run(name, 'h_parse.c', d + defs, reach=k.pop('reach', AR), kinds=kinds, iso=iso, **k)
    r = [R('text', ['LEN=%d' % n], bounds='every text of up to %d bytes, through Parse, ParseFast and ParseLen with every length' % n),
         R('text_fast', ['LEN=%d' % m, 'API=2'], bounds='every text of up to %d bytes through ParseFast' % m),
         R('templates', [tpl(TP)], bounds='%d document templates with 1 to 4 arbitrary bytes each, three parse functions' % len(TP)),
         R('unicode', [tpl(TU), 'API=2'], bounds='%d templates around \\u escapes and surrogate pairs, arbitrary bytes in the hex digits' % len(TU)),
         R('structure', ['ALPHA=' + S('[]{}:,"1a '), 'LEN=%d' % (8 if q else 9), 'API=2'], bounds='every text of up to %d bytes over []{}:,"1a and space' % (8 if q else 9)),
         R('numbers', ['ALPHA=' + S('01.-+eE'), 'LEN=%d' % (7 if q else 9), 'API=2'], bounds='every text of up to %d bytes over 01.-+eE' % (7 if q else 9)),
         R('sizes', ['SCALE=0,15', 'SIZES=' + SIZ, 'API=2'], steps=3000000, bounds='16 growing document families, sizes 1 to 300 around powers of two, arbitrary bytes at the end'),
         R('sizes_big', ['SCALE=0,15', 'SIZES=' + (BIG if q else BIG + ',' + HUGE), 'API=1'], steps=40000000, bounds='the same families at sizes 511 to %d through ParseLen' % (2000 if q else 10000))]
    r.append(R('huge', ['SCALE=16,22', 'SIZES=65537' if q else 'SIZES=65535,65536,65537,70000', 'API=%d' % (0 if 'CHECK_READ' in d else 1)], steps=400000000, frontier=7, bounds='seven families (string, key, number, elements, members, whitespace, escapes) beyond 16 bits, one arbitrary byte at the end'))
    return r
PROPS['C01'] = dict(runs=lambda t: parse_runs(t, ['CHECK_ACCEPT'], None))
PROPS['C02'] = dict(runs=lambda t: parse_runs(t, ['CHECK_READ'], None, lens=(5, 6)))
PROPS['C03'] = dict(runs=lambda t: parse_runs(t, ['CHECK_TREE'], None, lens=(5, 7)))
OPN = 'Null Bool Str Num Arr Obj Key AAdd AAddF OAdd OAddF Set SetF ADel ODel Move Copy Parse'.split()
def oplist(*o): return 'OPLIST=' + ','.join('o' + x for x in o)
def docs(*d): return 'DOCS=' + ','.join(S(x) for x in d)
def srcs(*d): return 'SRCS=' + ','.join(S(x) for x in d)
def mut(name, defs, **k): return Run(name, 'h_mut.c', defs, reach=['done'], **k)
def opsn(k, *o): return 'OPS%d=' % k + ','.join('o' + x for x in o)
def mut3(n, a, b, c, q, *x): return mut(n, ['STEPS=3', opsn(1, *a), opsn(2, *b), opsn(3, *c), 'VALID', 'HELD', 'PROBES=0,%d' % (1 if q else 3), docs('[1,[2,3]]', '{"a":[1],"b":2}'), srcs('[5,6]')] + list(x), bounds='histories of three operations (%s; %s; %s) on every pair of values of three small documents; handles taken at the start are used at the end' % (' '.join(a), ' '.join(b), ' '.join(c)))
def wide(n, ed, t, **k): return Run(n, 'h_wide.c', ['SIZES=1,2,3,8,16,17,33,64,65,100,127,128,129,255,256,257,300' + (',511,512,513,1000,1024' if t != 'quick' else ''), 'EDITS=%d,%d' % ed], reach=['done'], steps=60000000, bounds='arrays and objects of 1 to %d members, built in four ways, edited at the first, last, middle and last but one member' % (300 if t == 'quick' else 1024), **k)
def c14(t):
    q = t == 'quick'
    return [mut('all1', ['STEPS=1', oplist(*OPN), 'PROBES=0,3']),
            mut('fast2', ['STEPS=2', oplist('AAddF', 'OAddF', 'SetF', 'Move'), 'PROBES=1,2', 'HELD']), wide('wide', (3, 3), t), wide('wide_set', (8, 8), t),
            mut3('fast3', ('Move', 'AAddF') if q else ('SetF', 'Set', 'Parse', 'Move', 'AAddF', 'OAddF'), ('AAddF', 'OAddF', 'SetF'), ('ADel', 'ODel', 'Move'), q)]
PROPS['C14'] = dict(runs=c14)
TU1 = ['\\u~~~~', 'x\\u00~~y', '\\~\\~\\~', '\\u~~~~\\~']
TU2 = ['\\uD~~~\\uDC00', '\\uD800\\u~~~~', '\\ud~b~\\uD~~f', '\\uDBFF\\uDF~~']
TU3 = ['\\uD~~~\\u~~~~', '\\uD834\\u~~~~', '\\ud8~0\\udc0~', '\\u~~~~\\~~']
def s(name, mode, defs, **k): return Run(name, 'h_str.c', [mode] + defs, **k)
SLEN = '1,2,5,15,16,17,31,32,33,63,64,65,100,120,126,127,128,129,130,200,255,256,257,500,1000,1023,1024,1025'
SSHORT = '2,31,32,33,63,64,65,127,128,129,255,256,257,1023,1024,1025'
def c06(t):
    q = t == 'quick'
    r = [s('bytes', 'M_UNESC', ['LEN=%d' % (4 if q else 6)], reach=['valid']), s('escapes', 'M_UNESC', [tpl(TU1)], reach=['valid']), s('pairs', 'M_UNESC', [tpl(TU2), 'ROUTES=0,1'], reach=['valid']),
         s('sizes', 'M_UNESC', ['SIZES=' + SLEN, 'FILL=' + S('x')], reach=['valid'], steps=4000000), s('esc_sizes', 'M_UNESC', ['SIZES=' + '12,60,120,126,132,252,258,600,1020,1026,1032', 'FILL=' + S('\\u4E2d')], reach=['valid'], steps=4000000)]
    if not q: r += [s('pairs_all', 'M_UNESC', [tpl(TU2 + TU3)], reach=['valid'])]
    return r
def c07(t):
    q = t == 'quick'
    return [s('bytes', 'M_ESC', ['LEN=%d' % (2 if q else 3)], reach=['done']), s('sizes', 'M_ESC', ['SIZES=' + SSHORT, 'FILL=' + S('x'), 'HOLES=1'], reach=['done'], steps=4000000), s('sizes_esc', 'M_ESC', ['SIZES=' + SSHORT, 'FILL=' + S('x"\n'), 'HOLES=1'], reach=['done'], steps=4000000)]
def c08(t):
    q = t == 'quick'
    return [s('strings', 'M_SET', ['FNS=0,7', 'LEN=%d' % (4 if q else 5)], reach=AR), s('unicode', 'M_SET', ['FNS=0,7', 'TGTS=0,%d' % (1 if q else 4), tpl(TU1 + TU2[:2] if q else TU1 + TU2)], reach=AR), s('numbers', 'M_SET', ['FNS=8,11', 'LEN=%d' % (5 if q else 6)], reach=AR), s('numbers2', 'M_SET', ['FNS=8,11', 'LEN=%d' % (7 if q else 8), 'ALPHA=' + S('01.-+eE')], reach=AR),
            s('sizes', 'M_SET', ['FNS=0,7', 'SIZES=' + SLEN, 'FILL=' + S('x')], reach=AR, steps=4000000), s('num_sizes', 'M_SET', ['FNS=8,11', 'SIZES=' + SLEN, 'FILL=' + S('7')], reach=AR, steps=4000000)]
PROPS['C06'] = dict(runs=c06)
PROPS['C07'] = dict(runs=c07)
PROPS['C08'] = dict(runs=c08)
def c04(t):
    q = t == 'quick'
    F = lambda n, d, **k: Run(n, 'h_fail.c', d, reach=AR, **k)
    return [F('text', ['LEN=%d' % (4 if q else 5), 'API=0']), F('apis', ['LEN=3']), F('templates', [tpl(['[~,~', '{"z":~~', '[[7],~]~', '{"z":[~}', '"~~"', '-~~', '{"a":0}~']), 'KEYROOT', 'API=0'] if q else [tpl(TP), 'KEYROOT'])]
PROPS['C04'] = dict(runs=c04)
def c09(t):
    q = t == 'quick'
    X = lambda n, m, d, **k: Run(n, 'h_num.c', [m] + d, **k)
    r = [X('ints', 'M_SET', ['FNS=0,2'], reach=['set']), X('doubles', 'M_SET', ['FNS=3,4'], reach=['set', 'refused']),
         X('texts', 'M_TEXT', [tpl(['~~~', '-~~~~', '21474836~~', '-214748364~', '92233720368547758~~', '-922337203685477580~', '1~~2', '~.~e~~', '0~', '-0~~', '99999999999999999999~'])], reach=['number', 'int', 'long']),
         X('sizes', 'M_TEXT', ['SIZES=1,9,10,18,19,20,63,64,65,125,126,127,128,129,130,255,256,257,400', 'ROUTES=0,3'], reach=['number', 'int'], steps=2000000)]
    return r
PROPS['C09'] = dict(runs=c09)
def c05(t):
    q = t == 'quick'
    X = lambda n, d, **k: Run(n, 'h_build.c', d, reach=['done'], **k)
    return [X('flat', ['DEPTH=1', 'NCH=2']), X('nested', ['DEPTH=%d' % (2 if q else 3), 'NCH=2', 'KINDS=5,7', 'FIXED']), X('tinybuf', ['DEPTH=1', 'NCH=2', 'zj_STRING_INIT_MEMSIZE=1']), 
            X('big', ['DEPTH=1', 'NCH=1', 'SIZES=1,2,100,250,251,252,253,254,255,256,257,500,505,506,507,508,509,510,511,512,513,1000,1010,1012,1013,1014,1015,1016,1017,1018,1019,1020,1021,1022,1023,1024,1025,1026,2047,2048,2049'], steps=5000000),
            mut('edited', ['STEPS=1', oplist(*OPN), 'PROBES=0,0', 'ROUNDTRIP', 'VARIANTS'])]
PROPS['C05'] = dict(runs=c05)
SCAL = ['Null', 'Bool', 'Str', 'Num', 'Arr', 'Obj']
CFGS = [('size64', ['zj_SIZE_TYPE=uint64_t', 'zj_API_MODE=0', 'zj_ALLOCATOR_INIT_MEMSIZE=100']), ('tiny', ['zj_ALLOCATOR_INIT_MEMSIZE=1', 'zj_STRING_INIT_MEMSIZE=1']), ('odd', ['zj_ALLOCATOR_INIT_MEMSIZE=37', 'zj_STRING_INIT_MEMSIZE=7', 'zj_DELTA=3', 'zj_EXPECT_MODE=2']), ('mem2', ['zj_ALLOCATOR_INIT_MEMSIZE=64', 'zj_STRING_INIT_MEMSIZE=16', 'zj_DELTA=5', 'zj_MEMORY_MODE=2', 'COUNTERS', 'ZJ_ALLOC_COUNT=AllocMemoryCount', 'ZJ_FREE_COUNT=FreeMemoryCount'])]
def c10(t):
    q = t == 'quick'
    return [mut('retype', ['STEPS=2', oplist(*SCAL), 'PROBES=0,0', 'GETTERS', docs('[1,{"a":"x"}]')]), mut('moved', ['STEPS=1' if q else 'STEPS=2', oplist(*OPN), 'PROBES=0,0', 'GETTERS']),
            Run('parsed', 'h_parse.c', ['LEN=%d' % (4 if q else 6), 'API=2', 'CHECK_GET'], reach=AR), Run('parsed_tpl', 'h_parse.c', [tpl(TP), 'API=2', 'CHECK_GET'], reach=AR)]
PROPS['C10'] = dict(runs=c10)
def c11(t):
    q = t == 'quick'
    A = ['AAdd', 'AAddF', 'ADel', 'Move']
    return [mut('arr2', ['STEPS=2', oplist(*A), docs('[1,[2,3],4]', '[]'), 'PROBES=0,3', 'BY_INDEX']), mut('arr_fresh', ['STEPS=%d' % (3 if q else 4), oplist('AAdd', 'AAddF', 'ADel'), 'FRESH', 'T_ROOT0', 'VALID', docs('[]', '[1,2]'), 'PROBES=0,1']),
            mut('del', ['STEPS=%d' % (3 if q else 4), oplist('ADel', 'Move'), 'T_ROOT0', docs('[1,2,3,4,5]', '[[0],[1],[2]]'), 'PROBES=0,3', 'OBS_EACH']),
            mut('index', ['STEPS=2', oplist('ADel', 'AAdd'), 'PROBES=0,0', 'WIDEIDX', 'HELD', docs('[1,[2,3],4]', '[]')]), wide('wide', (0, 3), t), wide('wide_drain', (7, 7), t)]
PROPS['C11'] = dict(runs=c11)
def c12(t):
    q = t == 'quick'
    return [mut('obj2', ['STEPS=2', oplist('OAdd', 'OAddF', 'ODel', 'Move', 'Key'), docs('{"a":1,"b":{"a":2}}', '{}'), 'PROBES=0,3']), mut('keys', ['STEPS=2', oplist('ODel', 'OAdd'), 'FRESH', 'T_ROOT0', 'VALID', 'SYMKEYS', docs('{"a":1,"b":[],"c":"z"}'), 'PROBES=0,0', 'OBS_EACH']),
            wide('wide', (0, 3), t), wide('wide_drain', (7, 7), t), Run('lookup', 'h_obj.c', ['NM=3'], reach=['found', 'missing']), Run('lookup_len', 'h_obj.c', ['NM=2', 'KLEN=2'], reach=['found', 'missing'])]
PROPS['C12'] = dict(runs=c12)
def c13(t):
    q = t == 'quick'
    E2 = ['Str', 'Arr', 'ADel', 'ODel', 'AAddF', 'OAddF', 'Move', 'Key', 'Null']
    return [mut('copy1', ['STEPS=2', 'FIRST=oCopy', oplist(*OPN), 'PROBES=0,2']), mut('add1', ['STEPS=2', 'FIRST=oAAdd', oplist(*E2), 'PROBES=0,0']), mut('oadd1', ['STEPS=2', 'FIRST=oOAdd', oplist(*E2), 'PROBES=0,0']), mut('set1', ['STEPS=2', 'FIRST=oSet', oplist(*E2), 'PROBES=0,0']),
            mut3('edit_copy', ('ADel', 'ODel', 'Move'), ('Copy', 'Set'), ('AAddF', 'ADel', 'ODel', 'OAddF'), q), mut3('edit_add', ('ADel', 'ODel', 'Move', 'AAddF'), ('AAdd', 'OAdd'), ('ADel', 'ODel', 'Arr', 'Str'), q), wide('wide', (4, 6), t)]
PROPS['C13'] = dict(runs=c13)
def c24(t):
    q = t == 'quick'
    return [wide('wide', (5, 5), t), wide('wide_fast', (8, 8), t), mut('held2', ['STEPS=2', oplist(*OPN), 'PROBES=0,0', 'HELD'] + ([docs('[1,{"a":[2]}]')] if q else [])), mut3('set3', ('SetF', 'Parse') if q else ('SetF', 'Set', 'Parse'), ('AAddF', 'Arr') if q else ('AAddF', 'SetF', 'Arr'), ('ADel', 'ODel', 'Move', 'AAdd'), q), mut('set2', ['STEPS=2', oplist('Set', 'SetF', 'Parse'), 'PROBES=0,1']), mut('set_edit', ['STEPS=2', 'FIRST=oSet', oplist('AAdd', 'OAddF', 'ADel', 'Move', 'Arr', 'Obj'), 'PROBES=0,3']), mut('setf_edit', ['STEPS=2', 'FIRST=oSetF', oplist('AAdd', 'OAddF', 'ADel', 'Move', 'Arr', 'Obj'), 'PROBES=0,3'])]
PROPS['C24'] = dict(runs=c24)
def c15(t):
    q = t == 'quick'
    r = []
    for n, i, d in (('s1', 1, 2), ('s7', 7, 3), ('s64', 64, 2), ('s4096', 4096, 2)):
        r.append(Run('sym_' + n, 'h_alloc.c', ['SYMBOLIC', 'zj_ALLOCATOR_INIT_MEMSIZE=%d' % i, 'zj_DELTA=%d' % d, 'NALLOC=%d' % (3 if q else 4), 'MAXB=40000', 'MAXS=%d' % (300 if i < 4096 else 9000)], iso=False, reach=['done']))
    for n, i, d, k in (('d', 4096, 2, 3), ('t', 1, 3, 2)):
        r.append(Run('all_' + n, 'h_alloc.c', ['SYMBOLIC', 'ALLSIZES', 'zj_ALLOCATOR_INIT_MEMSIZE=%d' % i, 'zj_DELTA=%d' % d, 'NALLOC=%d' % (k if q else k + 1)], iso=False, reach=['done'], bounds='%d requests, each of any size from 0 to 4294967295' % (k if q else k + 1)))
    S1 = 'SIZES=0,1,7,8,9,16,31,32,33,64,100'
    r += [Run('fill', 'h_alloc.c', [S1, 'NALLOC=4', 'zj_ALLOCATOR_INIT_MEMSIZE=32'], iso=False, reach=['done']), Run('fill_default', 'h_alloc.c', ['SIZES=1,100,2000,4095,4096,4097,9000', 'NALLOC=3'], iso=False, reach=['done'], steps=4000000), Run('fill_cpp', 'h_alloc.c', [S1, 'NALLOC=3', 'zj_ALLOCATOR_INIT_MEMSIZE=32'], iso=False, bind=2, reach=['done']), Run('fill_hpp', 'h_alloc.c', [S1, 'NALLOC=3', 'zj_ALLOCATOR_INIT_MEMSIZE=32'], iso=False, bind=3, reach=['done']),
          mut('history', ['STEPS=1', oplist(*OPN), 'PROBES=0,2', 'LEAK', 'GETTERS', 'zj_ALLOCATOR_INIT_MEMSIZE=16', 'zj_STRING_INIT_MEMSIZE=4'], iso=False), mut('history_cpp', ['STEPS=1', oplist('Str', 'AAdd', 'Copy', 'Parse'), 'PROBES=0,0', 'LEAK', 'GETTERS', 'zj_ALLOCATOR_INIT_MEMSIZE=16'], iso=False, bind=2), mut('history_default', ['STEPS=1', oplist(*OPN), 'PROBES=0,2', 'LEAK', 'GETTERS'], iso=False)]
    return r
PROPS['C15'] = dict(runs=c15)
def c16(t):
    q = t == 'quick'
    return [mut('two1', ['STEPS=1', 'TWO', oplist(*OPN), 'PROBES=0,2']), mut('two2', ['STEPS=2', 'TWO', oplist('AAdd', 'OAdd', 'Set', 'Copy') if q else oplist('AAdd', 'OAdd', 'Set', 'Copy', 'Str', 'Key', 'Move', 'SetF'), docs('[1,{"a":"s"}]'), srcs('{"b":["t",2]}'), 'PROBES=0,0']),
            Run('strings', 'h_two.c', ['SIZES=1,3,100,126,127,128,129,130,300'], reach=['done'], steps=1000000)]
PROPS['C16'] = dict(runs=c16)
def c17(t):
    q = t == 'quick'
    PADS = 'PADS=0,6,7,13,14,15,29,30,31,61,62,63,64,100,125,126,127,128,253,254,255,256,300,1000,1021,1022,1023,1024,4000,4096'
    return [Run('own_sizes', 'h_own.c', ['M_OWN', 'OPS_OWN=0,15', 'STEPS=1', PADS, 'MBYTES=400000'], reach=['done'], steps=20000000, bounds='every copying operation with texts of 30 lengths up to 4100'), Run('own2', 'h_own.c', ['M_OWN', 'OPS_OWN=0,15', 'STEPS=2'], reach=['done']), Run('own3', 'h_own.c', ['M_OWN', 'OPS_OWN=2,7', 'STEPS=3'], reach=['done']), Run('own_real', 'h_own.c', ['M_OWN', 'OPS_OWN=0,15', 'STEPS=2'], reach=['done'], iso=False)]
PROPS['C17'] = dict(runs=c17)
def c18(t):
    q = t == 'quick'
    return [Run('read_edit', 'h_own.c', ['M_READ', 'STEPS=1', 'EDIT_AFTER'], reach=['done'], bounds='one read of any value, then one of ten edits of any value'), Run('read_edit_real', 'h_own.c', ['M_READ', 'STEPS=1', 'EDIT_AFTER'], reach=['done'], iso=False, bounds='the same on the real allocator'), Run('read2', 'h_own.c', ['M_READ', 'STEPS=2'], reach=['done']), Run('read_real', 'h_own.c', ['M_READ', 'STEPS=1', 'zj_ALLOCATOR_INIT_MEMSIZE=8', 'zj_STRING_INIT_MEMSIZE=2'], reach=['done'], iso=False)]
PROPS['C18'] = dict(runs=c18)
def c28(t):
    q = t == 'quick'
    return [Run('two', 'h_thread.c', ['TLEN=%d' % (2 if q else 3)], reach=['done'], threads=True, iso=False, bounds='27 operations on four targets with every text of %d bytes, then every read' % (2 if q else 3)),
            Run('sizes', 'h_thread.c', ['TLEN=1', 'PADS=15,64,130,260,1030' if q else 'PADS=15,31,33,64,127,130,260,515,1030,2050,4100'], reach=['done'], threads=True, iso=False, steps=4000000, bounds='the same on two targets with numbers, strings, arrays and string bodies of up to %d bytes, the last byte arbitrary' % (1030 if q else 4100))]
PROPS['C28'] = dict(runs=c28)

TC = ['{"a":[~,1],"~":"x~"}', '["~~",[{"k":~}]]', '[-~.~e~,[]]', '{"\\u~~41":{"":[~]}}']
def c19(t):
    q = t == 'quick'; r = []
    for n, c in CFGS:
        pc = [x for x in c if not x.startswith('COUNTERS')]
        r += [Run('parse_' + n, 'h_parse.c', [tpl(TC), 'CHECK_ACCEPT', 'CHECK_TREE', 'CHECK_GET', 'CHECK_READ'] + pc, reach=AR, iso=False), Run('text_' + n, 'h_parse.c', ['LEN=%d' % (3 if q else 5), 'CHECK_ACCEPT', 'CHECK_TREE', 'CHECK_READ'] + pc, reach=AR, iso=False),
              Run('scale_' + n, 'h_parse.c', ['SCALE=0,15', 'SIZES=1,8,33,100', 'API=0', 'CHECK_ACCEPT', 'CHECK_TREE'] + pc, reach=AR, steps=4000000, iso=False),
              mut('ops_' + n, ['STEPS=1', oplist(*OPN), 'PROBES=0,%d' % (1 if q else 4), 'LEAK', 'GETTERS', 'ROUNDTRIP'] + c, iso=False),
              s('esc_' + n, 'M_ESC', ['SIZES=1,15,16,17,60,127,128,129,257', 'FILL=' + S('x"'), 'HOLES=1'] + pc, reach=['done'], steps=4000000, iso=False), s('set_' + n, 'M_SET', ['FNS=0,11', 'LEN=%d' % (2 if q else 3)] + pc, reach=AR, iso=False), s('unesc_' + n, 'M_UNESC', ['LEN=%d' % (3 if q else 4)] + pc, reach=['valid'], iso=False),
              Run('build_' + n, 'h_build.c', ['DEPTH=1', 'NCH=2', 'FIXED'] + pc, reach=['done'], iso=False), Run('own_' + n, 'h_own.c', ['M_OWN', 'OPS_OWN=0,15', 'STEPS=1'] + pc, reach=['done'], iso=False)]
    return r
PROPS['C19'] = dict(runs=c19)
BINDS = [(1, 'cshort'), (2, 'member'), (3, 'wrapper'), (4, 'nsshort'), (6, 'cinc')]
def c20(t):
    q = t == 'quick'; r = []
    for b, n in BINDS:
        r += [Run('parse_' + n, 'h_parse.c', [tpl(TC), 'CHECK_ACCEPT', 'CHECK_TREE', 'CHECK_GET', 'CHECK_READ'], reach=AR, bind=b), Run('text_' + n, 'h_parse.c', ['LEN=%d' % (3 if q else 5), 'CHECK_ACCEPT', 'CHECK_TREE', 'CHECK_GET', 'CHECK_READ'], reach=AR, bind=b),
              mut('ops_' + n, ['STEPS=1', oplist(*OPN), 'PROBES=0,%d' % (1 if q else 4), 'GETTERS', 'ROUNDTRIP'], bind=b), mut('two_' + n, ['STEPS=1', 'TWO', oplist(*OPN), 'PROBES=0,0'], bind=b),
              s('set_' + n, 'M_SET', ['FNS=0,11', 'LEN=%d' % (2 if q else 4)], reach=AR, bind=b), s('unesc_' + n, 'M_UNESC', ['LEN=%d' % (3 if q else 4)], reach=['valid'], bind=b), s('esc_' + n, 'M_ESC', ['LEN=%d' % (1 if q else 2)], reach=['done'], bind=b),
              Run('nums_' + n, 'h_num.c', ['M_SET', 'FNS=0,4'], reach=['set', 'refused'], bind=b), Run('numtext_' + n, 'h_num.c', ['M_TEXT', tpl(['~~~', '21474836~~', '92233720368547758~~', '~.~e~~'])], reach=['number', 'int', 'long'], bind=b),
              Run('own_' + n, 'h_own.c', ['M_OWN', 'OPS_OWN=0,15', 'STEPS=1'], reach=['done'], bind=b), Run('lookup_' + n, 'h_obj.c', ['NM=2'], reach=['found', 'missing'], bind=b), Run('fast_' + n, 'h_own.c', ['M_FAST'], reach=['done'], bind=b)]
    return r
PROPS['C20'] = dict(runs=c20)

def c21(t):
    r = [Run('fast_' + n, 'h_own.c', ['M_FAST'], reach=['done'], bind=b) for b, n in [(0, 'c')] + BINDS] + [Run('fast_sizes', 'h_own.c', ['M_FAST', 'PADS=0,6,7,13,14,15,29,30,31,61,62,63,64,100,125,126,127,128,253,254,255,256,300,1000,1021,1022,1023,1024,4000,4096'], reach=['done'], steps=4000000, bounds='texts of 30 lengths up to 16500'), Run('fast_real', 'h_own.c', ['M_FAST', 'zj_ALLOCATOR_INIT_MEMSIZE=1'], reach=['done'], iso=False)]
    return r
PROPS['C21'] = dict(runs=c21)
def c22(t):
    q = t == 'quick'
    return [Run('shapes', 'h_deep.c', ['DEPTH=%d' % (9 if q else 12), 'PERIOD=%d' % (9 if q else 12)], reach=['done'], steps=2000000), Run('deep', 'h_deep.c', ['DEPTH=150', 'PERIOD=3'], reach=['done'], steps=4000000), Run('deeper', 'h_deep.c', ['DEPTH=%d' % (600 if q else 5000), 'PERIOD=2'], reach=['done'], steps=100000000), Run('deep_cpp', 'h_deep.c', ['DEPTH=100', 'PERIOD=2'], bind=3, reach=['done'], steps=2000000), Run('deep_real', 'h_deep.c', ['DEPTH=100', 'PERIOD=2'], iso=False, reach=['done'], steps=2000000)]
PROPS['C22'] = dict(runs=c22)
TT = [('', '~~~', '', '', ''), ('[', '~~,', '1', '', ']'), ('"', '~~', '', '', '"'), ('"', '\\~', '', '', '"'), ('"', '\\u~~4~', '', '', '"'), ('{"', '~', '', '', '":1}'), ('{', '"~":~,', '"k":~', '', '}'), ('1', '~', '', '', ''), ('[1', '~', '', '', ']'), ('', '~', '1', '~', ''), ('', '[', '~', ']', ''), ('', '{"":', '~', '~', ''), ('[', '"~~",', '~', '', ']'), ('[', '[],{},', '~', '~', ''), ('', '~', '~', '', ''), ('[', '[1,', '2', '~]', ']'), ('[', '{"a":~~', '', '', ''), ('', '[{"a":', '1', '}]', '')]
TV = [('', '~~', '', '', ''), ('', '\\u~~4~', '', '', ''), ('', '\\~', '', '', '')]
TV2 = [('', '~', '', '', ''), ('', 'a~', '', '', ''), ('', '~"', '', '', '')]
def tps(t): return 'TPLS=' + ','.join('{' + ','.join(S(x) for x in y) + '}' for y in t)
def c26(t, **b):
    q = t == 'quick'; n = 'N1=%d' % (128 if q else 512)
    X = lambda name, d, r, **k: Run(name, 'h_cost.c', d + [n], iso=False, cost=True, steps=200000000, reach=r, **k, **b)
    return [X('texts', ['M_TEXT', tps(TT), 'OPS=0,2'], AR, bounds='%d families of texts made by repeating parts with 1 to 3 arbitrary bytes %s times: the three parse functions' % (len(TT), n[3:])),
            X('documents', ['M_TEXT', tps(TT), 'OPS=3,9'], ['done'], bounds='the documents among them: Stringify, Copy, Set, ArrayAdd, traversal in width and depth, string getters'),
            X('values', ['M_TEXT', tps(TV), 'OPS=10,12'], ['done'], bounds='setters with such texts'), *([X('escape', ['M_TEXT', tps(TV2), 'OPS=13,13'], ['done'], bounds='escaping setter: one arbitrary byte repeated')] if b.get('bind') != 5 else []),
            X('containers', [], ['done'], bounds='34 operations on arrays and objects of %s and 8 times as many members, built in three ways, at the first, middle and last member' % n[3:])]
def c26all(t): return c26(t) + [Run('containers_' + n, 'h_cost.c', ['N1=128'], iso=False, cost=True, steps=200000000, reach=['done'], bind=k, bounds='the same through ' + d) for k, n, d in ((2, 'member', 'the member functions'), (3, 'wrapper', 'the C++ wrapper'))]
PROPS['C26'] = dict(runs=c26all)
def c25(t):
    q = t == 'quick'; b = dict(bind=5)
    P = lambda n, d, **k: Run(n, 'h_parse.c', d, reach=AR, **b, **k)
    return [P('text', ['LEN=%d' % (4 if q else 6), 'CHECK_ACCEPT', 'CHECK_TREE', 'CHECK_GET', 'CHECK_READ'], bounds='every text of up to %d bytes, three parse functions' % (4 if q else 6)), P('templates', [tpl(TP), 'API=%d' % (2 if q else 3), 'CHECK_ACCEPT', 'CHECK_TREE', 'CHECK_GET', 'CHECK_READ']), P('unicode', [tpl(TU), 'API=2', 'CHECK_ACCEPT', 'CHECK_TREE']),
            P('structure', ['ALPHA=' + S('[]{}:,"1a '), 'LEN=%d' % (6 if q else 8), 'API=2', 'CHECK_ACCEPT', 'CHECK_TREE']), P('numbers', ['ALPHA=' + S('01.-+eE'), 'LEN=%d' % (6 if q else 8), 'API=2', 'CHECK_ACCEPT']), P('sizes', ['SCALE=0,15', 'SIZES=' + SIZ, 'API=1', 'CHECK_ACCEPT', 'CHECK_TREE', 'CHECK_READ'], steps=3000000),
            Run('fail', 'h_fail.c', ['LEN=%d' % (3 if q else 4)], reach=AR, **b),
            mut('ops', ['STEPS=1', oplist(*OPN), 'PROBES=0,3', 'GETTERS', 'ROUNDTRIP', 'VARIANTS'], **b), mut('arr2', ['STEPS=2', oplist('AAdd', 'AAddF', 'ADel', 'Move'), docs('[1,[2,3],4]', '[]'), 'PROBES=0,2', 'BY_INDEX'], **b), mut('obj2', ['STEPS=2', oplist('OAdd', 'OAddF', 'ODel', 'Move', 'Key'), docs('{"a":1,"b":{"a":2}}', '{}'), 'PROBES=0,2'], **b),
            mut('copy', ['STEPS=2', 'FIRST=oCopy', oplist(*OPN), 'PROBES=0,1'], **b), mut('set', ['STEPS=2', 'FIRST=oSet', oplist(*OPN), 'PROBES=0,1'], **b), mut('two', ['STEPS=1', 'TWO', oplist(*OPN), 'PROBES=0,1'], **b), mut('history', ['STEPS=1', oplist(*OPN), 'PROBES=0,1', 'LEAK', 'GETTERS', 'z_ALLOCATORINITMEMSIZE=16', 'z_STRINGINITMEMSIZE=4'], iso=False, **b), wide('wide', (0, 3), t, **b),
            s('set_texts', 'M_SET', ['FNS=0,11', 'LEN=%d' % (3 if q else 4)], reach=AR, **b), s('set_unicode', 'M_SET', ['FNS=0,7', 'TGTS=0,1', tpl(TU1)], reach=AR, **b), s('set_sizes', 'M_SET', ['FNS=0,7', 'SIZES=' + SLEN, 'FILL=' + S('x')], reach=AR, steps=4000000, **b), s('unescape', 'M_UNESC', ['LEN=%d' % (4 if q else 5)], reach=['valid'], **b), s('unescape_u', 'M_UNESC', [tpl(TU1)], reach=['valid'], **b), s('unescape_pairs', 'M_UNESC', [tpl(TU2), 'ROUTES=0,1'], reach=['valid'], **b),
            Run('doubles', 'h_num.c', ['M_SET', 'FNS=3,4'], reach=['set', 'refused'], **b), Run('num_texts', 'h_num.c', ['M_TEXT', tpl(['~~~', '21474836~~', '92233720368547758~~', '~.~e~~'])], reach=['number'], **b), Run('num_sizes', 'h_num.c', ['M_TEXT', 'SIZES=1,9,20,63,64,125,126,127,128,129,255,256,400', 'ROUTES=0,3'], reach=['number'], steps=2000000, **b),
            Run('own', 'h_own.c', ['M_OWN', 'OPS_OWN=0,15', 'STEPS=1'], reach=['done'], **b), Run('fast', 'h_own.c', ['M_FAST'], reach=['done'], **b), Run('read_edit', 'h_own.c', ['M_READ', 'STEPS=1', 'EDIT_AFTER'], reach=['done'], **b), Run('lookup', 'h_obj.c', ['NM=3'], reach=['found', 'missing'], **b), Run('build', 'h_build.c', ['DEPTH=1', 'NCH=2'], reach=['done'], **b), Run('deep', 'h_deep.c', ['DEPTH=150', 'PERIOD=3'], reach=['done'], steps=4000000, **b),
            Run('alloc', 'h_alloc.c', ['SYMBOLIC', 'z_ALLOCATORINITMEMSIZE=64', 'z_DELTA=2', 'NALLOC=3', 'MAXB=40000', 'MAXS=300'], iso=False, reach=['done'], **b), Run('alloc_all', 'h_alloc.c', ['SYMBOLIC', 'ALLSIZES', 'z_ALLOCATORINITMEMSIZE=64', 'z_DELTA=2', 'NALLOC=2'], iso=False, reach=['done'], **b), Run('alloc_fill', 'h_alloc.c', ['SIZES=0,1,7,8,9,16,31,32,33,64,100', 'NALLOC=3', 'z_ALLOCATORINITMEMSIZE=32'], iso=False, reach=['done'], **b),
            Run('threads', 'h_thread.c', ['TLEN=2'], reach=['done'], threads=True, iso=False, **b)] + [r for r in c26('quick', **b) if r.name in ('texts', 'documents', 'containers') and not setattr(r, 'name', 'cost_' + r.name)]
PROPS['C25'] = dict(runs=c25)
