# What is explored for each property: harness runs, their bounds, and how they split into cubes.
from itertools import product

PROPS = {}


def levels(extra=()):
    return [['LEVEL=%d' % l] + list(e) for l in (0, 1) for e in (extra or [()])]


GL = [['GL0=0'], ['GL0=1'], ['GL0=2']]


def chan(name, op, *defs, **k):
    d = dict(name=name, src='chan.c', defs=['OPA=%d' % op] + list(defs), cubes=levels())
    d.update(k)
    return d


def S(name, *defs, **k):
    return dict(name=name, src='stream.c', defs=list(defs), **k)


STREAM = 'streams of 3 GOPs plus the start of a fourth, each with 0..2 further pictures (all combinations), GOP and frame level'

PROPS['P01'] = {
    'bounds': STREAM + '; one picture unit with any one byte replaced by any other value, extended by any byte, cut short by any length, or two units changed; '
              'H.264 and H.265, sha256 and sha512, ECDSA and RSA, GOPs longer than the hash list, digests that differ in their last bytes only; every position',
    'outside': 'more than two altered units, units longer than 12 bytes, digest collisions',
    'runs': [
        chan('byte', 0, cubes=levels(GL)), chan('byte265', 0, 'CODEC=1', 'MAXP=1'), chan('append', 10), chan('cut', 11),
        chan('two', 12, 'MAXP=1', 'NG=3', cubes=levels()), chan('two2', 12, tier='thorough', cubes=levels(GL)),
        chan('long_unit', 0, 'PAYLOAD=5', 'MAXP=1', 'NG=2'), chan('sha512', 0, 'HASH="sha512"', 'MAXP=1', 'NG=2'), chan('rsa', 0, 'KEY=\'R\'', 'MAXP=1', 'NG=2'),
        chan('long_gop', 0, 'MAXP=3', 'NG=2', cfg={'max_gop': 3}, cubes=levels([['GL0=%d' % i] for i in range(4)])),
        chan('gop7', 0, 'LONGP=6', 'NG=2'), chan('gop10', 0, 'LONGP=9', 'NG=2'), chan('append7', 10, 'LONGP=6', 'NG=2'), chan('two7', 12, 'LONGP=6', 'NG=2'),
        chan('tail', 0, 'TAIL', 'MAXP=1'), chan('tail512', 0, 'TAIL', 'HASH="sha512"', 'MAXP=1', 'NG=2'), chan('late', 0, 'LATE=1', 'MAXP=1'), chan('latekey', 12, 'STARTG=1', 'RECUR=5', 'NG=4', 'MAXP=1', timeout=60),
        chan('midstream', 0, 'START', 'MAXP=1', tier='thorough', timeout=600),
    ]}
PROPS['P02'] = {
    'bounds': STREAM + '; one of: drop a picture, insert a forged picture anywhere, swap any two units, replay any picture anywhere, substitute any picture for another, '
              'lose 2..5 consecutive units, lose all pictures of a GOP, insert an altered copy next to a picture, exchange two GOPs, replay a whole GOP with its SEI between two GOPs',
    'outside': 'three or more independent manipulations; longer streams',
    'runs': [chan('drop', 1), chan('insert', 2, cubes=levels(GL)), chan('swap', 3, cubes=levels(GL)), chan('replay', 4, cubes=levels(GL)), chan('subst', 5, cubes=levels(GL)),
             chan('burst', 8, cubes=levels(GL)), chan('empty_gop', 9), chan('double', 13), chan('exchange', 15, 'GOPS_MOVED'), *[chan('tail%d' % o, o, 'TAIL', 'MAXP=1', *(['GOPS_MOVED'] if o == 15 else [])) for o in (1, 2, 3, 4, 5, 15)], *[chan('tail512_%d' % o, o, 'TAIL', 'HASH="sha512"', 'MAXP=1', *(['GOPS_MOVED'] if o == 15 else [])) for o in (3, 15)],
             chan('drop265', 1, 'CODEC=1', 'MAXP=1'), *[chan('late%d' % o, o, 'LATE=2', 'MAXP=1') for o in (1, 3, 8, 13)], *[chan('latekey%d' % o, o, 'STARTG=1', 'RECUR=5', 'NG=5', 'MAXP=1', timeout=60) for o in (1, 5, 8)],
             chan('again', 16, 'GOPS_MOVED', cubes=levels(GL)), chan('again_tail', 16, 'TAIL', 'GOPS_MOVED', 'MAXP=1'), chan('again512', 16, 'TAIL', 'HASH="sha512"', 'GOPS_MOVED', 'MAXP=1'), chan('again_start', 16, 'START', 'GOPS_MOVED', 'MAXP=1'), chan('again_base', 16, 'BASE', 'GOPS_MOVED', 'MAXP=1'), chan('again_late', 16, 'LATE=2', 'GOPS_MOVED', 'MAXP=1'),
             *[chan('late_%d' % o, o, 'LATE=3', 'MAXP=1', tier='thorough', timeout=200) for o in (2, 4, 5)], chan('long_gop', 1, 'MAXP=3', 'NG=2', cfg={'max_gop': 3}), chan('long_gop_swap', 3, 'MAXP=3', 'NG=2', cfg={'max_gop': 3})] +
            [chan('gop7_%d' % o, o, 'LONGP=6', 'NG=2') for o in (1, 2, 3, 4, 5, 8, 9, 13)] + [chan('gop10_%d' % o, o, 'LONGP=9', 'NG=2') for o in (1, 3)] +
            [chan('pair%d_%d' % (x, y), x, 'OPB=%d' % y, 'MAXP=1', tier='thorough', timeout=100) for x in (1, 2, 3, 4, 5) for y in (1, 2, 3, 4, 5)]}
PROPS['P04'] = {
    'bounds': 'streams of up to 3 GOPs with 0..2 further pictures each; every combination of the listed settings in its own run',
    'outside': 'longer streams; other settings combinations',
    'runs': [
        S('h264'), S('h265', 'CODEC=1'), S('rsa', 'KEY=\'R\'', 'NG=2'), S('sha512', 'HASH="sha512"', 'NG=2'), S('slices', 'SLICES=2', 'NG=2', 'EPB=1'),
        S('others', 'OTHERS', 'NG=2', 'MAXP=1'), S('sparse', 'SPARSE'), S('eos', 'EOS', 'NG=2'), S('symids', 'SYMIDS', 'NG=2', 'MAXP=1', 'EPB=1'),
        S('recur', 'RECUR=3', 'EPB=1'), S('nokey', 'NOKEY', 'EPB=1'), S('nokey512', 'NOKEY', 'HASH="sha512"', 'NG=2'), S('golden', 'GOLDEN', 'NG=2'), S('maxsei', 'MAXSEI=250', 'LEVEL=1', 'NG=2'),
        S('late', 'DELAY=3', 'EPB=1'), S('late265', 'DELAY=2', 'EPB=1', 'CODEC=1'), S('latesha', 'DELAY=2', 'EPB=1', 'HASH="sha512"', 'RECUR=4'), S('lategolden', 'DELAY=2', 'EPB=1', 'GOLDEN', 'NG=2'),
        S('sigsym', 'SIGSYM', 'NG=1', 'MAXP=1', tier='thorough', timeout=400),
    ]}
PROPS['P07'] = {
    'bounds': STREAM + '; one SEI lost at any position, replayed anywhere, or a whole GOP lost with its SEI',
    'outside': 'more than one loss in the quick tier; two in the thorough tier',
    'runs': [chan('drop_sei', 6, cubes=levels(GL)), chan('replay_sei', 7, cubes=levels(GL)), chan('lose_gop', 14), *[chan('tail%d' % o, o, 'TAIL', 'MAXP=1') for o in (6, 7, 14)], chan('gop7_6', 6, 'LONGP=6'), chan('gop7_7', 7, 'LONGP=5'), chan('late6', 6, 'LATE=2', 'MAXP=1'), chan('late14', 14, 'LATE=2', 'MAXP=1'), chan('latekey6', 6, 'STARTG=1', 'RECUR=5', 'NG=5', 'MAXP=1'), chan('twice', 6, 'OPB=6', 'MAXP=1', 'NG=4')] +
            [chan('pair%d_%d' % (x, y), x, 'OPB=%d' % y, 'MAXP=1', tier='thorough', timeout=100) for x in (6, 7, 14) for y in (1, 2, 3, 4, 6, 7)]}
def T(name, *defs, **k):
    return dict(name=name, src='seitamper.c', defs=list(defs), **k)
TC = [['LO=%d' % a, 'HI=%d' % (a + 40)] for a in range(0, 480, 40)]
ITE0 = ['--ite-limit', '0']
PROPS['P03'] = {
    'bounds': 'streams of 3 GOPs plus the start of a fourth; one byte (thorough: also two adjacent bytes) of the first or second signature SEI, at every position, replaced by every other value; GOP and frame level, both codecs, with and without emulation prevention, metadata in every SEI or in every second frame',
    'outside': 'changes of more than two bytes; SEIs longer than 480 bytes',
    'runs': [T('frame', 'LEVEL=1', cubes=TC, args=ITE0), T('gop', 'LEVEL=0', cubes=TC[:8], args=ITE0), T('first', 'LEVEL=1', 'TARGET=0', cubes=TC, args=ITE0),
             T('h265', 'CODEC=1', 'LEVEL=1', 'EPB=0', cubes=TC, args=ITE0), T('recur', 'RECUR=4', 'LEVEL=1', cubes=TC, args=ITE0),
             T('tune_in', 'RECUR=8', 'LEVEL=1', 'TARGET=0', 'START', 'NG=4', cubes=TC, args=ITE0), T('tune_in_gop', 'RECUR=1', 'LEVEL=0', 'TARGET=0', 'START', 'NG=4', cubes=TC[:8], args=ITE0),
             T('wide', 'WIDTH=2', 'LEVEL=1', cubes=TC, args=ITE0, tier='thorough', timeout=600)]}


def H(name, src, *defs, **k):
    return dict(name=name, src=src, defs=list(defs), **k)


PROPS['P05'] = {
    'bounds': 'streams of 3 GOPs with 0..1 further pictures, any of the SEIs lost; every verification independently succeeds, fails or errs; with and without golden SEI; key from the stream or provided beforehand',
    'outside': 'longer streams',
    'runs': [H('verify', 'verify.c'), H('lost', 'verify.c', 'DROPS', cubes=levels()), H('setkey', 'verify.c', 'SETKEY'), H('golden', 'verify.c', 'GOLDEN', 'NG=2'),
             H('h265', 'verify.c', 'CODEC=1', 'NG=2')]}
PROPS['P06'] = {
    'bounds': 'two sessions with different keys signing the same 3 GOPs, pictures of one altered from any GOP on; the viewer is switched from one stream to the other (and back) at every position after the first signature; key in the SEIs, left out, or provided beforehand; key replaced while signing',
    'outside': 'more than two keys; longer streams',
    'runs': [H('switch', 'keys.c'), H('switch_back', 'keys.c', 'CUT1', 'MAXP=0', cubes=levels()), H('recur', 'keys.c', 'RECUR=3'), H('nokey', 'keys.c', 'BNOKEY'),
             H('rsa', 'keys.c', "KEYB='R'", 'MAXP=0'), H('rekey2', 'keys.c', 'REKEY=2'), H('rekey3', 'keys.c', 'REKEY=3'),
             H('preset_good', 'keys.c', 'ANOKEY', "SETKEY='A'", 'REKEY=9', 'ALL_OK'), H('preset_other', 'keys.c', 'CUT0', "SETKEY='A'", 'EXPECT_FLAG', 'NG=4', 'MAXP=0'),
             H('preset_wrong', 'keys.c', 'ANOKEY', "SETKEY='B'", 'REKEY=9', 'NEVER_OK'), H('none', 'keys.c', 'ANOKEY', 'REKEY=9', 'NEVER_OK')]}
PARSE = {'repo_defs': ['PRINT_DECODED_SEI']}
PROPS['P08'] = {
    'bounds': 'units of 1..6 (thorough 1..9) arbitrary bytes, bare or after a start code, both codecs: to a fresh validating side (before, after and between pictures), to a validating side at every point of a stream of 3 GOPs, to a signing side at three points, and to every helper that takes a unit (golden SEI test, SEI printing, peeking)',
    'outside': 'longer units that are not signature SEIs (see P09 for those)',
    'runs': [H('%s%d_%d_%d' % (n, c, f, x), 'bytes.c', 'CODEC=%d' % c, 'FORM=%d' % f, 'CTX=%d' % x, 'NB=%d' % nb, *e, args=ITE0, cfg=PARSE if x == 3 else {}, **k)
             for (n, nb, e, k) in (('u', 6, [], {}), ('deep', 9, [], {'tier': 'thorough', 'timeout': 120}), ('mid', 6, ['BEFORE', 'TWICE'], {}))
             for c in (0, 1) for f in (0, 3) for x in (0, 2, 3) if not (n == 'mid' and x)] +
            [H('stream%d' % c, 'bytes.c', 'FORM=3', 'CTX=1', 'NB=4', 'CODEC=%d' % c, args=ITE0) for c in (0, 1)]}
TAGS = (1, 2, 3, 4, 5, 6, 7, 128, 129, 130, 131)
NBT = {128: 6, 130: 6, 131: 6, 3: 13}
PROPS['P09'] = {
    'bounds': 'signature SEIs whose content after the identifier is arbitrary (6 bytes; 12 in the thorough tier), or one information element of every kind with an arbitrary value of up to 20 bytes, or of up to 577 bytes of which the first 5 are arbitrary, in current and legacy format, with and without golden mark and emulation prevention; presented first, twice, or at every point of a signed stream',
    'outside': 'arbitrary content of more than 12 bytes at once; P03 covers changes of full-size SEIs',
    'runs': [H('tlv%s' % rb, 'bytes.c', 'FORM=1', 'CTX=0', 'NB=6', 'RESERVED=' + rb, args=ITE0) for rb in ('0x00', '0x80', '0x30', '0xb0', '0x40', '0xf0')] +
            [H('tlvkey%s' % rb, 'bytes.c', 'FORM=1', 'CTX=0', 'NB=6', 'WITH_KEY', 'RESERVED=' + rb, args=ITE0) for rb in ('0x00', '0x30')] +
            [H('tlv_size%s' % rb, 'bytes.c', 'FORM=1', 'CTX=0', 'NB=4', 'SIZE_SYM', 'RESERVED=' + rb, args=ITE0) for rb in ('0x00', '0xb0')] +
            [H('tlv_twice%s' % rb, 'bytes.c', 'FORM=1', 'CTX=0', 'NB=4', 'BEFORE', 'TWICE', 'RESERVED=' + rb, args=ITE0) for rb in ('0x00', '0xb0', '0xf0')] +
            [H('val%d' % t, 'bytes.c', 'FORM=2', 'CTX=0', 'NB=%d' % NBT.get(t, 20), 'TAG=%d' % t, 'RESERVED=0x30', args=ITE0) for t in TAGS] +
            [H('epbval%d' % t, 'bytes.c', 'FORM=2', 'CTX=0', 'NB=5', 'TAG=%d' % t, 'RESERVED=0xb0', args=ITE0) for t in TAGS] +
            [H('legval%d' % t, 'bytes.c', 'FORM=2', 'CTX=0', 'NB=%d' % NBT.get(t, 20), 'TAG=%d' % t, 'RESERVED=0', args=ITE0) for t in TAGS] +
            [H('big%s%d' % (n, t), 'bytes.c', 'FORM=2', 'CTX=0', 'NB=5', 'BIG', 'TAG=%d' % t, 'RESERVED=' + rb, args=ITE0) for t in (1, 2, 4, 5, 6, 129) for (n, rb) in (('', '0x30'), ('leg', '0'))] +
            [H('print%d' % t, 'bytes.c', 'FORM=2', 'CTX=3', 'NB=8', 'TAG=%d' % t, 'RESERVED=0x30', args=ITE0, cfg=PARSE) for t in TAGS] +
            [H('mid%d' % at, 'bytes.c', 'FORM=1', 'CTX=1', 'NB=4', 'AT=%d' % at, args=ITE0) for at in range(9)] +
            [H('midleg%d' % at, 'bytes.c', 'FORM=1', 'CTX=1', 'NB=4', 'RESERVED=0', 'AT=%d' % at, args=ITE0) for at in range(9)] +
            [H('midval%d' % t, 'bytes.c', 'FORM=2', 'CTX=1', 'NB=3', 'TAG=%d' % t, 'RESERVED=0x30', args=ITE0) for t in TAGS] +
            [H('deep_tlv%s' % rb, 'bytes.c', 'FORM=1', 'CTX=0', 'NB=12', 'RESERVED=' + rb, args=ITE0, tier='thorough', timeout=200) for rb in ('0x00', '0x80', '0x30', '0xb0', '0xf0')] +
            [H('deep_val%d' % t, 'bytes.c', 'FORM=2', 'CTX=0', 'NB=40', 'TAG=%d' % t, 'RESERVED=0x30', args=ITE0, tier='thorough', timeout=200) for t in TAGS]}
PROPS['P10'] = {
    'bounds': '2 GOPs; product information in any of the five fields with lengths 0..260 (every length 0..16 and around 254), all values of the first and last two characters and those around the limit, any field missing; with and without emulation prevention; in every SEI or every third frame',
    'outside': 'all characters arbitrary at the same time; longer streams',
    'runs': [H('info%d' % f, 'sei.c', 'INFO', 'SYMCH=2', 'EPB=0', 'FIELD=%d' % f, 'LENS=0,1,2,3,9,127,128,253,254,255,256') for f in range(5)] +
            [H('info_epb%d' % f, 'sei.c', 'INFO', 'SYMCH=2', 'EPB=1', 'LEVEL=%d' % (f % 2), 'FIELD=%d' % f, 'LENS=1,2,3,254,255') for f in range(5)] +
            [H('null%d' % e, 'sei.c', 'INFO', 'INFO_NULL', 'EPB=%d' % e) for e in (0, 1)] +
            [H('noinfo', 'sei.c', 'INFO', 'NOINFO'), H('recur', 'sei.c', 'INFO', 'RECUR=3', 'NG=3', 'FIELD=2', 'LENS=3', 'SYMCH=1'),
             H('h265', 'sei.c', 'INFO', 'CODEC=1', 'FIELD=1', 'SYMCH=2', 'LENS=4,255'), H('golden', 'sei.c', 'INFO', 'GOLDEN', 'FIELD=0', 'SYMCH=2', 'LENS=4,255'),
             H('nokey', 'sei.c', 'INFO', 'NOKEY', 'FIELD=3', 'SYMCH=2', 'LENS=4,255')] +
            [H('lens%d' % f, 'sei.c', 'INFO', 'LEVEL=0', 'FIELD=%d' % f, 'LEN0=0', 'LEN1=300', tier='thorough', timeout=300) for f in range(5)] +
            [H('long_sym%d' % f, 'sei.c', 'INFO', 'LEVEL=0', 'EPB=0', 'SYMCH=40', 'FIELD=%d' % f, 'LENS=60,254', tier='thorough', timeout=300) for f in range(5)]}
PROPS['P11'] = {
    'bounds': '2 GOPs; both codecs, both levels, with and without emulation prevention, public key in the SEI or not, metadata of every length giving every SEI size in a range of 300 bytes, arbitrary signature bytes (5), digests rich in zeros, attestations of zeros up to 255 bytes, golden SEI, end of stream, sha256/384/512, ECDSA and RSA; the encoder applies emulation prevention afterwards',
    'outside': 'arbitrary digest values (two styles of digests, dense and rich in zeros, are used)',
    'runs': [H('form', 'sei.c', 'FORM'), H('form265', 'sei.c', 'FORM', 'CODEC=1'), H('rsa', 'sei.c', 'FORM', "KEY='R'"), H('sparse', 'sei.c', 'FORM', 'SPARSE'), H('eos', 'sei.c', 'FORM', 'EOS', 'NG=1'),
             H('golden', 'sei.c', 'FORM', 'GOLDEN', 'NG=1'), H('golden265', 'sei.c', 'FORM', 'GOLDEN', 'NG=1', 'CODEC=1'), H('nokey', 'sei.c', 'FORM', 'NOKEY'), H('recur', 'sei.c', 'FORM', 'RECUR=3', 'NG=3'),
             H('sha512', 'sei.c', 'FORM', 'HASH="sha512"'), H('sha384', 'sei.c', 'FORM', 'HASH="sha384"'),
             H('sigsym', 'sei.c', 'FORM', 'SIGSYM', 'SIGSIZE=5', 'NG=1', 'EPB=1', 'LEVEL=0'), H('sigsym265', 'sei.c', 'FORM', 'SIGSYM', 'SIGSIZE=5', 'NG=1', 'EPB=1', 'LEVEL=1', 'CODEC=1'),
             H('sigsize', 'sei.c', 'FORM', 'SIGSIZE=0', 'MAXSIG=6', 'NG=1'), H('sigsize72', 'sei.c', 'FORM', 'SIGSIZE=0', 'MAXSIG=40', 'NG=1', 'LEVEL=0', tier='thorough'),
             H('att', 'sei.c', 'FORM', 'ATT', 'LEVEL=0'), H('att265', 'sei.c', 'FORM', 'ATT', 'LEVEL=0', 'CODEC=1')] +
            [H('att_%s_%d' % (h, c), 'sei.c', 'FORM', 'ATT', 'NOKEY', 'NOINFO', 'LEVEL=0', 'SPARSE', 'HASH="%s"' % h, 'CODEC=%d' % c) for h in ('sha256', 'sha512') for c in (0, 1)] +
            [H('enc%d%s' % (c, s), 'sei.c', 'ENCODER', 'EPB=0', 'CODEC=%d' % c, *([s] if s else [])) for c in (0, 1) for s in ('', 'SPARSE', 'NOINFO', 'NOKEY')] +
            [H('len%d' % a, 'sei.c', 'FORM', 'FIELD=4', 'LEN0=%d' % a, 'LEN1=%d' % (a + 65), 'LEVEL=0', 'NG=1', 'CODEC=%d' % (a // 65 % 2)) for a in range(0, 260, 65)]}
PROPS['P32'] = {
    'bounds': 'streams of 2..3 GOPs, each with or without a timestamp; every 64-bit value for all of them without emulation prevention, and every value of each group of 3 bytes (others zero or not) with it',
    'outside': 'longer streams',
    'runs': [H('ts_%d_%d' % (b, z), 'sei.c', 'TS', 'NG=1', 'EPB=1', 'LEVEL=0', 'TSB=%d' % b, 'TSN=3', 'TSZ=%d' % z) for b in (0, 3, 5) for z in (0, 1)] +
            [H('ts%d' % c, 'sei.c', 'TS', 'NG=3', 'EPB=0', 'CODEC=%d' % c) for c in (0, 1)] + [H('recur', 'sei.c', 'TS', 'NG=2', 'EPB=0', 'RECUR=5'), H('unasked', 'sei.c', 'TS', 'NG=3', 'EPB=0', 'UNASKED'),
             H('wide', 'sei.c', 'TS', 'NG=1', 'EPB=1', 'LEVEL=0', 'TSB=0', 'TSN=8', 'TSZ=0', tier='thorough', timeout=600)]}
NOPLUG = {'plugin': ''}
PROPS['P12'] = {
    'bounds': 'every sequence of 5..6 operations (adding pictures, asking for the size of a SEI, fetching, fetching with a peeked unit of each kind, taking a unit to prepend, ending the stream) after the first picture, with a plugin that delivers each signature, or fails to, at any time; and a full queue of 60 SEIs',
    'outside': 'longer sequences; plugins that deliver signatures out of order',
    'assumptions': ['The signing plugin is replaced by one of the harness that answers requests in order at arbitrary times (P19 covers the threaded plugin).'],
    'runs': [H('fifo', 'queue.c', 'OPS=0,2,3', 'N=6', cfg=NOPLUG), H('peek', 'queue.c', 'OPS=0,1,4,5,6,3', 'N=5', cfg=NOPLUG), H('prepend', 'queue.c', 'OPS=0,7,3', 'N=6', cfg=NOPLUG),
             H('eos', 'queue.c', 'OPS=0,8,3,7', 'N=5', cfg=NOPLUG), H('size', 'queue.c', 'OPS=0,9,10', 'N=5', cfg=NOPLUG),
             H('fails', 'queue.c', 'OPS=0,3,2', 'N=5', 'FAILS', cfg=NOPLUG, reach=['end', 'signature_fails']), H('fails_p', 'queue.c', 'OPS=0,7,8', 'N=5', 'FAILS', cfg=NOPLUG),
             H('signfails', 'queue.c', 'OPS=0,3', 'N=5', 'SIGN_FAILS', cfg=NOPLUG), H('same', 'queue.c', 'OPS=0,1,2,3,8', 'N=4', 'COMPARE', 'LEVEL=1', cfg=NOPLUG, reach=['end', 'compared']),
             H('fifo265', 'queue.c', 'OPS=0,2,3', 'N=5', 'CODEC=1', 'LEVEL=1', 'EPB=0', cfg=NOPLUG)] +
            [H('full%d' % k, 'queue.c', 'OPS=0,3,11', 'N=3', 'COMPARE', 'FILL=%d' % k, cfg=NOPLUG, reach=['end', 'full']) for k in (61, 62)] +
            [H('deep%d' % k, 'queue.c', 'OPS=' + o, 'N=8', cfg=NOPLUG, tier='thorough', timeout=300) for k, o in enumerate(('0,2,3', '0,7,3', '0,8,3', '0,4,5'))] +
            [H('deepfail%d' % k, 'queue.c', 'OPS=' + o, 'N=6', 'FAILS', cfg=NOPLUG, tier='thorough', timeout=300) for k, o in enumerate(('0,2,3', '0,7,8', '0,1,3'))]}
PROPS['P13'] = {
    'bounds': 'streams of 2 GOPs; any one unit (or two consecutive ones) handed over in 1..3 parts split anywhere after the first byte of the slice, each part in a buffer of its own that is overwritten afterwards; every unit first refused because SEIs wait; both codecs and levels; any of the bytes of the unit being zero',
    'outside': 'parts that split the unit header; parts that end within trailing zeros; four parts or more',
    'runs': [H('parts%d' % c, 'parts.c', 'PARTS=3', 'CODEC=%d' % c) for c in (0, 1)] + [H('refused%d' % c, 'parts.c', 'PARTS=3', 'REFUSE', 'CODEC=%d' % c, reach=['end', 'refused']) for c in (0, 1)] +
            [H('two%d' % c, 'parts.c', 'PARTS=2', 'TWO', 'CODEC=%d' % c) for c in (0, 1)] + [H('three_two', 'parts.c', 'PARTS=3', 'TWO', 'LEVEL=1'), H('long', 'parts.c', 'PARTS=3', 'PAYLOAD=5', 'LEVEL=0'), H('zeros', 'parts.c', 'PARTS=3', 'PAYLOAD=4', 'ZEROS', 'LEVEL=0')]}
PROPS['P14'] = {
    'bounds': 'streams of 2 GOPs; any unit with a start code of 0, 3 or 4 bytes and 0..2 trailing zeros on the signing side, and any (other) unit or SEI in another such form on the validating side; a unit with every header value the standards allow, delivered, altered or lost, at three places',
    'outside': 'headers the standards forbid (see P08); more than two trailing zeros',
    'runs': [H('forms%d' % c, 'parts.c', 'FORMS', 'CODEC=%d' % c, 'EPB=%d' % c) for c in (0, 1)] + [H('forms_two', 'parts.c', 'FORMS', 'TWO', 'LEVEL=1', tier='thorough', timeout=200)] +
            [H('class%d' % c, 'parts.c', 'CLASS', 'CODEC=%d' % c, args=ITE0) for c in (0, 1)]}
PROPS['P04']['runs'] += [S('eosmid', 'EOSMID=1'), S('eosmid2', 'EOSMID=1', 'EOS2=1', 'NG=2')]


def rules(r):
    d = 'RULES=%d' % r
    ts = lambda o: ['TS=-1500000'] if r == 1 and o in (1, 6, 7, 8) else []
    return ([chan('latekey%d' % o, o, d, 'STARTG=1', 'RECUR=5', 'NG=5', 'MAXP=1') for o in (0, 1, 3, 6, 13)] +
            [chan('late%d' % o, o, d, 'LATE=2', 'MAXP=1') for o in (0, 6)] +
            [chan('op%d' % o, o, d, 'MAXP=1', *(['GOPS_MOVED'] if o >= 15 else []), *ts(o)) for o in range(17) if o != 12] +
            [H('stream', 'stream.c', d), H('others', 'stream.c', d, 'OTHERS', 'NG=2', 'MAXP=1'), H('keys', 'keys.c', d), H('rekey', 'keys.c', d, 'REKEY=2'),
             H('eos', 'stream.c', d, 'EOS', 'NG=2'), H('golden', 'stream.c', d, 'GOLDEN', 'NG=2'), H('verify', 'verify.c', d), H('verify_lost', 'verify.c', d, 'DROPS', 'LEVEL=1'),
             chan('h265', 1, d, 'CODEC=1', 'MAXP=1')] +
            [chan('pair%d_%d' % (x, y), x, 'OPB=%d' % y, d, 'MAXP=1', tier='thorough', timeout=100) for x in (1, 2, 3, 6, 7) for y in (1, 3, 6, 7)])


RB = 'streams of 3 GOPs with 0..1 further pictures and one manipulation of any of 15 kinds at every position, with and without other units, end of stream, golden SEI; keys switched at every position; any outcome of each verification, any of the SEIs lost'
PROPS['P15'] = {
    'bounds': RB + '; a second viewer that does not ask for reports from any position on for 1, 2 or all units',
    'outside': 'longer streams, three or more manipulations',
    'runs': rules(1) + [chan('silent%d_%d' % (o, k), o, 'SILENT=%d' % k, 'MAXP=0', 'TS=5') for o in (1, 3, 6, 7) for k in (1, 2, 99)]}
PROPS['P16'] = {'bounds': RB, 'outside': 'longer streams, three or more manipulations', 'runs': rules(2)}

PROPS['P17'] = {
    'bounds': 'every API call with every missing parameter, out-of-range values (all of them), unusable keys, unknown or late algorithm choices and invalid units, at every point of a stream of 2 GOPs on either side; every setting that may change while signing changed twice, at every pair of points of a stream of 3 GOPs',
    'outside': 'longer streams; three or more changes',
    'runs': [H('refused', 'cfg.c', 'REFUSED'), H('refused265', 'cfg.c', 'REFUSED', 'CODEC=1', 'NG=1'), H('refused512', 'cfg.c', 'REFUSED', 'NG=1', 'HASH="sha512"', 'RECUR=2'), H('viewer', 'cfg.c', 'VIEWER'),
             H('viewer265', 'cfg.c', 'VIEWER', 'CODEC=1')] +
            [H('change%d_%d' % (k, r), 'cfg.c', 'CHANGE=%d' % k, 'NG=%d' % (2 if k == 6 else 3), 'RECUR=%d' % r) for k in range(8) for r in (1, 3)]}
LONG = [['FIRST=%d' % i] for i in range(10)]
PROPS['P18'] = {
    'bounds': '2..3 GOPs of 1..10 pictures (supported length lowered to 3 by the build option, or 8), every limit on the SEI size from 0 to 65535; both codecs, sha256 and sha512, with and without emulation prevention, product information and metadata interval',
    'outside': 'the default supported length of 300 pictures; limits above 65535',
    'runs': [H('limit', 'limits.c', 'LEVELS', 'SIZE'), H('limit_epb', 'limits.c', 'SIZE', 'EPB=1'), H('limit265', 'limits.c', 'SIZE', 'CODEC=1', 'INFO'), H('limit512', 'limits.c', 'SIZE', 'HASH="sha512"', 'HASHSIZE=64', 'RECUR=2'),
             H('limit_recur', 'limits.c', 'SIZE', 'RECUR=4', 'INFO'), H('long', 'limits.c', 'MAXP=9', 'NG=3', 'GOPMAX=3', cfg={'max_gop': 3}, cubes=LONG),
             H('long512', 'limits.c', 'MAXP=5', 'NG=3', 'GOPMAX=3', 'HASH="sha512"', 'HASHSIZE=64', cfg={'max_gop': 3}), H('long_limit', 'limits.c', 'SIZE', 'MAXP=8', 'MINP=2', 'NG=2', 'GOPMAX=3', cfg={'max_gop': 3})]}
PROPS['P20'] = {
    'bounds': 'a validating session fed any prefix of a stream of up to 3 GOPs (complete, or with any unit lost or altered), reset, then fed any suffix of the same or of another stream; a signing session reset after up to 5 pictures, with or without a unit half way and an end of stream; two sessions interleaved',
    'outside': 'metadata not sent in every SEI on the validating side (the key is kept by a reset); more than two sessions; longer streams',
    'runs': [H('view', 'reset.c', 'VIEW', cubes=levels()), H('drop', 'reset.c', 'VIEW', 'DROP', 'NG=2', cubes=levels()), H('other', 'reset.c', 'VIEW', 'OTHER', 'NG=2', cubes=levels()),
             H('other512', 'reset.c', 'VIEW', 'OTHER', 'NG=2', 'HASH2="sha512"', 'MAXP=0'), H('v512', 'reset.c', 'VIEW', 'HASH="sha512"', 'NG=2'), H('v265', 'reset.c', 'VIEW', 'CODEC=1', 'NG=2'),
             H('twice', 'reset.c', 'VIEW', 'TWICE', 'NG=2'), H('sign', 'reset.c', 'SIGN'), H('sign265', 'reset.c', 'SIGN', 'CODEC=1', 'RECUR=3'), H('pair', 'reset.c', 'PAIR'),
             H('drop3', 'reset.c', 'VIEW', 'DROP', tier='thorough', cubes=levels(), timeout=400)]}
PROPS['P24'] = {
    'bounds': 'streams of 1..4 GOPs with 0..1 further pictures; a genuine attestation set in every way; forged ones: any one byte of the attestation with any other value, another key, signer, chip, serial number, certificate name, chain or key kind; '
              'no attestation, no chain, no key in the stream, another manufacturer; an attested stream followed by any combination of manufacturer, attestation and metadata interval of a foreign signer; every outcome of verifying the attestation',
    'outside': 'the correctness of X.509 path validation itself (modelled); more than one changed byte',
    'runs': [H('genuine', 'vendor.c', 'GENUINE'), H('genuine3', 'vendor.c', 'GENUINE', 'RECUR=3', 'NG=4', 'MAXP=0'), H('genuine265', 'vendor.c', 'GENUINE', 'CODEC=1'),
             H('forged', 'vendor.c', 'FORGED', 'NG=1'), H('forged3', 'vendor.c', 'FORGED', 'NG=3', 'MAXP=0', 'RECUR=3'), H('absent', 'vendor.c', 'ABSENT'), H('absent3', 'vendor.c', 'ABSENT', 'RECUR=3', 'MAXP=0', 'NG=4'),
             H('switch', 'vendor.c', 'SWITCH', 'MAXP=0', cubes=levels()), H('switch3', 'vendor.c', 'SWITCH', 'MAXP=0', 'RECUR=3', cubes=levels()),
             H('back', 'vendor.c', 'SWITCH', 'BACK', 'MAXP=0', 'RULES=1', cubes=levels(), reach=['end', 'other']), H('outcomes', 'vendor.c', 'OUTCOMES'), H('switchp', 'vendor.c', 'SWITCH', tier='thorough', cubes=levels(), timeout=400)]}
GT = [['LO=%d' % a, 'HI=%d' % (a + 20)] for a in range(0, 160, 20)]
PROPS['P25'] = {
    'bounds': 'streams of 1..2 GOPs with 0..1 further pictures; the golden SEI at any place before the first SEI; any byte of it replaced by any other value; golden SEIs of a second signer in front of, or between, streams of two signers',
    'outside': 'a golden SEI repeated after the first SEI of the stream, which the framework does not support',
    'runs': [H('place', 'golden.c', 'PLACE'), H('place265', 'golden.c', 'PLACE', 'CODEC=1', 'HASH="sha512"'), H('tamper', 'golden.c', 'TAMPER', 'NG=1', 'MAXP=0', cubes=GT, args=ITE0),
             H('tamper265', 'golden.c', 'TAMPER', 'NG=1', 'MAXP=0', 'CODEC=1', cubes=GT, args=ITE0)] + [H('f%d' % i, 'golden.c', 'FOREIGN=%d' % i) for i in range(4)]}


def flt(o, p):
    F = lambda n, *d, **k: H(p + n, 'faults.c', *d, *o, **k)
    T = dict(tier='thorough', timeout=300)
    return ([F('sign', 'SIGN', 'NG=2'), F('win', 'SIGN', 'NG=6', 'WIN=2', 'MAXP=1'), F('gold', 'SIGN', 'GOLDEN', 'NG=1'), F('hash', 'SIGN', 'HASH="sha512"', 'NG=1'), F('axis', 'SIGN', 'ATT', 'NG=1'),
             F('prep', 'SIGN', 'PREPEND', 'NG=2', 'LEVEL=0'), F('key', 'SETKEY'), F('keyR', 'SETKEY', "KEY2='R'"),
             F('view', 'VIEW', 'NG=2'), F('alter', 'VIEW', 'ALTER', 'NG=2'), F('vwin', 'VIEW', 'WIN=1', 'NG=5'), F('vgold', 'VIEW', 'GOLDEN'), F('vgiven', 'VIEW', 'GIVEN'), F('vhash', 'VIEW', 'HASH="sha512"'),
             F('vaxis', 'VIEW', 'ATT', 'NG=1'), F('vforg', 'VIEW', 'ATT', 'FORGED', 'NG=1'), F('vreset', 'VIEW', 'RESET'), F('vinfo', 'VIEW', 'ATT', 'INFO2=2', 'RECUR=3', 'NG=5', 'MAXP=0'), F('sign2', 'SIGN', 'FAULTS=2', 'NG=1'), F('view2', 'VIEW', 'FAULTS=2', 'NG=1')] +
            ([F('vdrop', 'VIEW', 'DROP', 'NG=2')] if o else []) +
            [F('nofault', 'VIEW', 'ATT', 'NG=2', 'FAULTS=0', reach=['end']), F('sign265', 'SIGN', 'CODEC=1', 'NG=3', **T), F('view265', 'VIEW', 'CODEC=1', 'NG=3', **T), F('alter265', 'VIEW', 'ALTER', 'CODEC=1', 'NG=3'),
             F('win4', 'SIGN', 'NG=7', 'WIN=3', 'MAXP=2', **T), F('vwin2', 'VIEW', 'WIN=2', 'NG=6', **T), F('alter2', 'VIEW', 'ALTER', 'FAULTS=2', 'NG=2', **T), F('axis2', 'SIGN', 'ATT', 'NG=1', 'FAULTS=2', **T)])


PROPS['P21'] = {
    'bounds': 'every one (thorough: two) of the memory allocations failing in sessions of 1..6 GOPs with 0..1 further pictures, on the signing side (setting up, signing, golden SEI, attestation, setting another key, fetching by either call) and on the validating side (complete, altered and forged streams, golden SEI, key given, reset)',
    'outside': 'failing allocations inside the cryptographic library, seen as failures of its functions (P22); three or more failures; a failed allocation while noting down how many units are missing, which is documented to affect only statistics',
    'runs': flt([], 'a')}
PROPS['P22'] = {
    'bounds': 'every one (thorough: two) of the calls into the cryptographic library failing, in the sessions of P21 and in streams with a lost unit',
    'outside': 'three or more failures; library functions that report success but give wrong results',
    'runs': flt(['OSSL'], 'o')}


TH = {'plugin': 'threaded-signing'}


def thr(n, *d, **k):
    p, sp = k.pop('preempt', 2), k.pop('spurious', 0)
    return H(n, 'threads.c', *d, cfg=TH, args=['--race', '--preempt', str(p), '--spurious', str(sp)], **k)


PROPS['P19'] = {
    'bounds': 'one session with a thread of its own, or two sessions with a common thread; every sequence of 2..5 operations (adding GOPs, fetching SEIs, waiting, closing and opening a session) with every schedule of the threads with at most two preemptions, '
              'and every point at which threads wait or take turns; up to 62 GOPs waiting; one spurious wakeup, one failure of signing, of an allocation or of starting a thread, at any point',
    'outside': 'more than two preemptions or two sessions; several threads calling the library',
    'assumptions': ['GLib mutexes, conditions and threads are modelled by the threads of the engine. Threads switch at locks, waits and joins; a data race detector (happens-before) shows that this covers all interleavings.'],
    'runs': [thr('basic', 'N=4', 'DRAIN', reach=['drained']), thr('idle', 'N=5', 'OPS=0,2,4'), thr('reopen', 'N=4', 'OPS=0,2,5'), thr('fail', 'N=4', 'DRAIN', 'SIGN_FAULTS=1', reach=['end', 'sign_failed']),
             thr('nothread', 'N=2', 'THREAD_FAILS', reach=['end', 'no_thread']), thr('cnothread', 'N=1', 'THREAD_FAILS', 'CENTRAL=1', reach=['end', 'no_thread']),
             thr('cen1', 'N=4', 'OPS=0,1,2,3', 'CENTRAL=1', 'DRAIN', reach=['drained']), thr('cen2', 'N=4', 'OPS=0,1,5', 'CENTRAL=2', 'DRAIN', reach=['drained']), thr('cfail', 'N=3', 'OPS=0,1', 'CENTRAL=2', 'DRAIN', 'SIGN_FAULTS=1'),
             thr('spur', 'N=3', 'DRAIN', spurious=1), thr('cspur', 'N=2', 'OPS=0,1', 'CENTRAL=1', spurious=1),
             thr('full', 'N=1', 'FILL=61', 'DRAIN', preempt=1, reach=['end', 'full']), thr('cfull', 'N=1', 'FILL=32', 'OPS=0,1,2,3', 'CENTRAL=2', 'DRAIN', preempt=1, reach=['end', 'full']),
             thr('alloc', 'N=3', 'ALLOC', 'DRAIN'), thr('calloc', 'N=2', 'OPS=0,1', 'ALLOC', 'CENTRAL=1', 'DRAIN', preempt=1), thr('calloc2', 'N=1', 'OPS=0,1', 'ALLOC', 'CENTRAL=2', 'DRAIN', preempt=1),
             thr('deep', 'N=6', 'OPS=0,2', 'DRAIN', preempt=3, tier='thorough', timeout=400), thr('deepcen', 'N=5', 'OPS=0,1,2,3', 'CENTRAL=2', 'DRAIN', tier='thorough', timeout=400),
             thr('deepopen', 'N=5', 'OPS=0,1,5,6', 'CENTRAL=1', 'DRAIN', tier='thorough', timeout=400), thr('full2', 'N=2', 'FILL=61', 'DRAIN', preempt=1, tier='thorough', timeout=300),
             thr('cfull2', 'N=2', 'FILL=32', 'OPS=0,1,2,3', 'CENTRAL=2', 'DRAIN', preempt=1, tier='thorough', timeout=400), thr('spur2', 'N=4', 'OPS=0,2,5', spurious=2, tier='thorough', timeout=300)]}
LG = lambda n, s, *d, **k: H(n, s, 'LEGACY', *d, **k)
LC = lambda n, o, *d, **k: chan(n, o, 'LEGACY', *d, **k)


def legacy_rules(r):
    return [dict(x, name='r%d%s' % (r, x['name']), defs=x['defs'] + ['LEGACY']) for x in rules(r) if 'tier' not in x and x['name'] not in ('eos', 'golden', 'rekey')]


def legacy_faults(o, p):
    F = lambda n, *d: LG(p + n, 'faults.c', 'VIEW', *d, *o)
    return [F('view', 'NG=2'), F('alter', 'ALTER', 'NG=2'), F('vwin', 'WIN=1', 'NG=5'), F('vgiven', 'GIVEN'), F('vhash', 'HASH="sha512"'), F('vreset', 'RESET'), F('view2', 'FAULTS=2', 'NG=1')]


PROPS['P26'] = {
    'bounds': 'streams as cameras wrote them before the current format, produced by an independent implementation of that format: 3..4 GOPs with 0..1 (one operation: 0..2) further pictures, GOP and frame level, both codecs, both hash algorithms, with and without emulation prevention, with and without key or hash algorithm in the stream, hash lists that overflow; every transport operation of P02 (alter, lose, insert, repeat, swap, move; also from mid-stream), any byte of one SEI replaced by any value, every verdict of the signature check, key replaced at any point',
    'outside': 'longer streams, more than one transport operation at a time (two in one run), SEIs delayed by more than the GOP they precede',
    'runs': [LG('stream', 'stream.c'), LG('stream512', 'stream.c', 'HASH="sha512"', 'NG=2'), LG('epb', 'stream.c', 'EPB=1', 'NG=2'), LG('h265', 'stream.c', 'CODEC=1', 'NG=2'), LG('recur', 'stream.c', 'RECUR=3'),
             LG('others', 'stream.c', 'OTHERS', 'NG=2', 'MAXP=1'), LG('long', 'stream.c', 'LMAXLIST=3', 'MAXP=3', 'NG=2'), LG('v1', 'stream.c', 'LGENERAL=1', 'LNOCRYPTO', 'NG=2'), LG('nokey', 'stream.c', 'NOKEY', 'NG=2')] +
            [LC('op%d' % o, o, 'MAXP=1', *(['NG=3'] if o in (12, 4, 2) else ['NG=4']), *(['GOPS_MOVED'] if o >= 15 else [])) for o in range(17)] +
            [LC('op%dx' % o, o, 'MAXP=1', 'NG=4', tier='thorough', timeout=300) for o in (12, 4, 2)] +
            [LC('tail%d' % o, o, 'TAIL', 'MAXP=1', 'NG=3') for o in (0, 3, 5)] +
            [LC('start0', 0, 'START', 'MAXP=1'), LC('start1', 1, 'START', 'MAXP=1')] +
            [LG('verify', 'verify.c'), LG('verify_lost', 'verify.c', 'DROPS', cubes=levels()), LG('setkey', 'verify.c', 'SETKEY'), LG('keys', 'keys.c'), LG('keys_cut', 'keys.c', 'CUT1', 'MAXP=0', cubes=levels())] +
            [LG('tamp%d' % l, 'seitamper.c', 'LEVEL=%d' % l, cubes=TC[:n], args=ITE0) for (l, n) in ((0, 4), (1, 8))]}
PROPS['P27'] = {
    'bounds': 'legacy streams as in P26 of 1..5 GOPs with 0..1 further pictures, GOP and frame level: after every transport operation, reset at any point (alone and next to another session), hostile units or SEIs of up to 5 arbitrary bytes at every point, one fault (two in the shortest streams) of memory allocation or of the cryptographic library at any call',
    'outside': 'longer streams, more faults, larger arbitrary contents',
    'runs': [LG('view', 'reset.c', 'VIEW'), LG('pair', 'reset.c', 'PAIR')] +
            legacy_rules(3) + legacy_faults([], 'mem_') + legacy_faults(['OSSL'], 'ossl_') +
            [LG('mid%d' % at, 'bytes.c', 'FORM=1', 'CTX=1', 'NB=4', 'RESERVED=0', 'AT=%d' % at, args=ITE0) for at in range(9)] +
            [LG('midval%d' % t, 'bytes.c', 'FORM=2', 'CTX=1', 'NB=5', 'TAG=%d' % t, 'RESERVED=0', 'LEVEL=0', args=ITE0) for t in TAGS] +
            [LG('hostile%d' % c, 'bytes.c', 'FORM=3', 'CTX=1', 'NB=4', 'CODEC=%d' % c, args=ITE0) for c in (0, 1)]}
PROPS['P23'] = {
    'bounds': 'all pairs of versions with three numbers of 1..2 (thorough 1..3) digits; all texts of up to 7 arbitrary characters against a version; streams of 2 GOPs signed by every version 0..255.0..255.0..255, GOP and frame level, both codecs',
    'outside': 'version numbers of more than three digits; longer texts',
    'runs': [H('cmp', 'version.c', 'CMP'), H('cmp3', 'version.c', 'CMP', 'DIGITS=3', tier='thorough', timeout=300), H('any', 'version.c', 'ANY')] +
            [H('report%d%d' % (c, l), 'version.c', 'REPORT', 'CODEC=%d' % c, 'LEVEL=%d' % l, args=ITE0) for c in (0, 1) for l in (0, 1)]}
R4 = ('MAXP=1', 'NG=6', 'RECOVER=4')
PROPS['P28'] = {
    'bounds': 'streams of 6 GOPs with 0..1 further pictures, GOP and frame level: every transport operation of P02 on anything between the end of the first and the start of the fourth GOP, and tuning in at any point of the first three GOPs; from the fifth GOP on everything must be authentic',
    'outside': 'longer disturbances; lost SEIs when others come late; legacy streams (P27)',
    'runs': [chan('op%d' % o, o, *R4, *(['GOPS_MOVED'] if o == 15 else []), cubes=levels()) for o in range(16)] +
            [chan('st%d' % o, o, *R4, 'START', cubes=levels()) for o in (1, 6, 99)] + [chan('extra', 2, *R4, 'EXTRA', cubes=levels())] +
            [chan('h265_%d' % o, o, *R4, 'CODEC=1', cubes=levels()) for o in (1, 6)] +
            [chan('pair%d_%d' % (x, y), x, *R4, 'OPB=%d' % y, cubes=levels()) for (x, y) in ((6, 6), (6, 1))] + [chan('late1', 1, *R4, 'LATE=1', cubes=levels())] +
            [chan('long%d' % o, o, 'MAXP=2', 'NG=6', 'RECOVER=4', cubes=levels(), tier='thorough', timeout=400) for o in (0, 1, 6, 7, 8, 14)]}
PROPS['P30'] = {
    'bounds': 'streams of 3 and 6 GOPs with 0..1 further pictures whose numbering starts at any 32-bit value, GOP and frame level; intact, and with every loss or repetition of a picture, SEI, range or GOP',
    'outside': 'other transport operations (P01, P02, P07 with small numbers)',
    'runs': [chan('intact', 99, 'BASE', 'INTACT', 'NG=4', 'MAXP=1')] + [chan('op%d' % o, o, 'BASE', 'NG=3', 'MAXP=1') for o in (1, 6, 7, 8, 14)] + [chan('rec%d' % o, o, 'BASE', *R4) for o in (1, 6, 14)] + [chan('pair6_6', 6, 'BASE', 'OPB=6', *R4), chan('pair14_14', 14, 'BASE', 'OPB=14', *R4), chan('twolost', 6, 'BASE', 'OPB=6', 'NG=5', 'MAXP=1')] +
            [chan('deep%d' % o, o, 'BASE', 'NG=4', 'MAXP=2', tier='thorough', timeout=300) for o in (0, 2, 3, 4, 5, 9, 13)]}


def leaks(*ids, skip=()):
    o = []
    for i in ids:
        for r in PROPS[i]['runs']:
            if r.get('tier') == 'thorough' or r['name'] in skip: continue
            o.append(dict(r, name=i.lower() + '_' + r['name'], defs=r['defs'] + ['LEAK']))
    return o


PROPS['P29'] = {
    'bounds': 'the runs of P04, P06, P08, P09, P10, P12, P13, P17, P18, P20, P24, P25 and P26 with their bounds, and streams of 3 GOPs with 0..1 further pictures disturbed in each of the ways of P01, P02 and P07; everything allocated by the framework and its plugin is counted, and every object of the cryptographic library',
    'outside': 'histories with faults of memory and library (P21, P22) and threads (P19), where the same is checked; memory allocated inside OpenSSL',
    'runs': leaks('P04', 'P06', 'P08', 'P09', 'P10', 'P12', 'P13', 'P17', 'P18', 'P20', 'P24', 'P25', 'P26', skip=('op12', 'start0', 'start1', 'verify', 'verify_lost')) +
            [chan('op%d' % o, o, 'MAXP=1', 'LEAK') for o in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14)]}
PROPS['P31'] = {
    'bounds': 'one or two keys generated one after the other, RSA or ECDSA, through either interface, with every combination of outputs, into four directories or none, over an existing file or not; one fault of the file system, the cryptographic library or memory at any call',
    'outside': 'the strength of generated keys, which is up to OpenSSL; permissions of the file; names of directories longer than four characters',
    'runs': [H('gen', 'keygen.c', 'TIMES=2', 'LEAK', reach=['end', 'file', 'memory'])] + [H('faults%d' % i, 'keygen.c', 'TIMES=1', 'FAULTS=%d' % i, 'LEAK', reach=['end', 'failed', 'file', 'memory']) for i in (1, 2, 3)]}
PROPS['P33'] = {
    'bounds': 'streams of up to 5 GOPs with 0..2 further units each (primary and other slices, parameter sets, delimiters, in every order); every 32-bit interval, also changed once during the stream; both codecs and levels; units in one piece or two parts; end of stream, golden SEI, key outside the stream, reset',
    'outside': 'longer streams; more than one change of the interval',
    'runs': [H('slices', 'recur.c', cubes=levels()), H('five', 'recur.c', 'NG=4', 'MAXP=1', 'KINDS="P"'), H('h265', 'recur.c', 'CODEC=1'), H('others', 'recur.c', 'KINDS="v_Pi"', 'NG=2'), H('change', 'recur.c', 'CHANGE', 'NG=3'), H('parts', 'recur.c', 'PARTS', 'MAXP=1', 'NG=2', 'PAYLOAD=3'),
             H('eos', 'recur.c', 'EOS=1', 'NG=3'), H('golden', 'recur.c', 'GOLDEN', 'NG=3'), H('nokey', 'recur.c', 'NOKEY', 'NG=3'), H('reset', 'recur.c', 'RESET=1', 'NG=3'),
             H('longer', 'recur.c', 'NG=8', 'MAXP=1', tier='thorough', timeout=300), H('long_gop', 'recur.c', 'NG=3', 'MAXP=4', tier='thorough', timeout=300)]}
