"""Jobs (harness parameters), bounds and budgets of every check."""
ASSUME = [
 'standard library: containers, strings and smart pointers are the real headers; streams, exceptions classes, list/tree rebalancing, character classification and pthread primitives are the models in models/ (validated per run by replaying sampled paths in the natively compiled code)',
 'memory allocation succeeds',
 'comparisons of a chain of floating point steps over one input with a constant are decided by the exact integer threshold found by bisection (each IEEE step with a constant is monotone); other floating point queries go to the solver\'s IEEE theory', 'clang 18 -O1 bitcode stands for the code, with signed overflow wrapping (-fwrapv) and assertions of the C++ library on; native replay uses the same sources with the real libstdc++',
]
def R(*a): return [list(x) for x in a]
JOBS = {}
JOBS['U01'] = dict(covers=['squashed'], bounds={'quick': 'all strings of 0..8 arbitrary bytes', 'thorough': 'all strings of 0..12 arbitrary bytes'},
  quick=[[n] for n in range(0, 9)], thorough=[[n] for n in range(12, -1, -1)])
JOBS['U02'] = dict(covers=['empties dropped', 'empties kept', 'two pieces'], bounds={'quick': 'all texts of 0..5 arbitrary bytes with 0..2 arbitrary delimiter bytes, texts of 6 with 1; both empty-piece modes', 'thorough': 'texts of 0..7 arbitrary bytes, 0..3 arbitrary delimiter bytes'},
  quick=[[6, 1]] + [[n, d] for n in range(5, -1, -1) for d in range(3)], thorough=[[n, d] for n in range(0, 8) for d in range(4)])
JOBS['F01'] = dict(covers=['placeholder', 'done'], bounds={'quick': 'formats of 0..5 arbitrary bytes with 2 values of 2 arbitrary bytes; "%ab%cd" over all digits with 12 values; indices of 1..4 digits with 12 values', 'thorough': 'formats of 0..7 arbitrary bytes with up to 3 values'},
  quick=[[0, n, 2, 2] for n in range(5, -1, -1)] + [[0, n, 0, 0] for n in range(4)] + [[1, 12]] + [[2, d, 10] for d in range(1, 4)],
  thorough=[[0, n, v, 2] for n in range(0, 8) for v in (0, 1, 2, 3)] + [[1, 12], [1, 11], [1, 0]] + [[2, d, 10] for d in range(1, 5)])
JOBS['F02'] = dict(covers=['unfilled', 'all filled', 'done'], bounds={'quick': 'formats of 0..4 arbitrary bytes, 0..2 values before and 0..2 after the reset', 'thorough': 'formats of 0..6 arbitrary bytes, 0..4 values before and 0..3 after the reset'},
  quick=[[n, a, b] for n in range(4, -1, -1) for a in range(0, 3) for b in range(0, 3)], thorough=[[n, a, b] for n in range(0, 7) for a in (0, 1, 2, 4) for b in (0, 1, 3)])
W = (0, 1, 5, 11, 14)
JOBS['F03'] = dict(covers=['negative', 'non-negative', 'fits', 'wider than the field'], bounds={'quick': 'every 32-bit value, separator and fill character, for widths 0..24', 'thorough': 'every 32-bit value, separator and fill character, for widths 0..40'},
  quick=[[s, f, w] for s in (0, 1) for f in (0, 1) for w in range(25)], thorough=[[s, f, w] for w in range(41) for s in (0, 1) for f in (0, 1)])
JOBS['F04'] = dict(covers=['wider than the field', 'filled', 'grouped'], bounds={'quick': 'every 64-bit value, format letter, separator and group size of at least 1, for widths 0..16, 20, 22 and 24', 'thorough': 'every 64-bit value, format letter, separator and group size of at least 1, for widths 0..28'},
  quick=[[c, s, w] for c in range(5) for s in (0, 1) for w in list(range(17)) + [20, 22, 24]], thorough=[[c, s, w] for c in range(5) for s in (0, 1) for w in range(29)])
JOBS['F05'] = dict(covers=['left justified', 'right justified', 'character', 'boolean'], bounds={'quick': 'all strings of 0..4 arbitrary bytes with every width -7..7; every character; both booleans', 'thorough': 'all strings of 0..10 arbitrary bytes with every width -14..14; every character; both booleans'},
  quick=[[n, 0, 7] for n in range(5)] + [[0, 1, 0], [0, 2, 0]], thorough=[[n, 0, 14] for n in range(11)] + [[0, 1, 0], [0, 2, 0]])
JOBS['F06'] = dict(covers=['nan', 'inf', 'finite'], bounds={'quick': 'every 64-bit double pattern and radix character; widths 0,1,3,7,9,12,16,24 with 0..12, 15 and 17 digits', 'thorough': 'every 64-bit double pattern and radix character; widths 0..30 with 0..17 digits'},
  quick=[[t, w, g, s] for t in range(4) for w in (0, 1, 3, 7, 9, 12, 16, 24) for g in list(range(13)) + [15, 17] for s in (0, 1)], thorough=[[t, w, g, s] for t in range(4) for w in range(0, 31, 3) for g in range(0, 18) for s in (0, 1)],
  assume=['the digits the C++ stream prints for a symbolic finite double are an unconstrained string of the right shape chosen once per (value, notation, precision); the code under test is therefore compared with the stream, not with the digits themselves'])
# windows of 2^k doubles around m*10^x
def _win(m, x, k, sig, w=0, neg=0, sep=0): return [1, m, 400 + x, k, sig, w, neg, sep]
_Z = [[2, 0, 0, 0, g, w, n, 0] for g in (1, 3) for w in (0, 9) for n in (0, 1)]
_TOP = [[0, 2046, 0, 0], [0, 2044, 0, 1], [0, 2040, 0, 2], [0, 2032, 0, 3]]
def _rest(b, g, w=0, neg=0, sep=0): return b + [g, w, neg, sep]
JOBS['F07'] = dict(covers=['zero', 'nonzero', 'fraction', 'padded'], max_inst=400000,
  bounds={'quick': 'all doubles of the binades 2^-12..2^12 with 3 digits (of some with 1, 2 and 4 digits, padded), of 16 groups of 16 binades spread over the whole range, the top ones and the subnormals included, with 1 digit, 2^20..2^44 consecutive doubles around selected decimal boundaries with 3..12 digits; zeros', 'thorough': 'all doubles with 1 and 2 digits; all doubles of 2^-30..2^30 with 3 and 4 digits; windows of 2^24..2^32 doubles around 1, 5, 999, 99999 and 123456789 times powers of ten from -300 to 300 with 9 and 12 digits'},
  quick=[[0, 0, 0, 4, 1, 0, 0, 0]] + [[0, b, 0, 4, 1, 0, 0, 0] for b in range(112, 2032, 128)] + [_rest(b, 1) for b in _TOP] + [[0, 1023 + b, 0, 0, 3, 0, b & 1, 0] for b in range(-12, 13)] + [[0, 1023 + b, 0, 0, g, 12, 1, 1] for b in (-2, 0, 4, 9, 10) for g in (1, 2, 4)] + [_win(m, x, 20, 12) for m in (1, 999, 5, 123456789) for x in (-300, -12, -9, -3, -1, 0, 1, 3, 6, 9, 300)] + [_win(m, x, 30, 9) for m in (1, 99999) for x in (-3, 0, 2, 5)] + [_win(9995, -1 + x, 44, 3) for x in (-3, -2, -1, 0, 1)] + [_win(m, x, 20, g, 3 * g if x < 0 else 0, int(x == 5), int(x == 2)) for g in (4, 5, 6, 7, 8, 10, 11) for m in (1, 9999999) for x in (-290, -4, -1, 0, 2, 5, 290)] + _Z,
  thorough=_Z + [_rest(b, 1) for b in _TOP] + [_rest([0, b, 0, 4], 1, 0, b >> 4 & 1) for b in range(0, 2032, 16)] + [[0, 1023 + b, 0, 0, g, 0, b & 1, 0] for b in range(-30, 31) for g in (3, 4)] + [_win(m, x, 24, 12) for m in (1, 999, 5, 123456789, 999999999999) for x in list(range(-300, 301, 20)) + list(range(-16, 17))] + [_win(m, x, 32, 9) for m in (1, 99999, 5) for x in range(-12, 13)] + [_rest(b, 2, 14) for b in _TOP] + [_rest([0, b, 0, 3], 2) for b in range(0, 2032, 8)])
JOBS['F08'] = dict(covers=['done'], bounds={'quick': 'every argument value (strings of 3 bytes) for widths 0 and 5, one or two inherited calls followed by a user-defined one', 'thorough': 'the same for widths 0..12'}, quick=[[c, w] for c in range(12) for w in (0, 5)], thorough=[[c, w] for c in range(12) for w in range(13)])
def T(*l): return [list(x) + [99] for x in l]
JOBS['O01'] = dict(covers=['accepted', 'refused', 'positional', 'vector'], bounds={'quick': 'token lists of up to 3 tokens of arbitrary bytes with lengths as listed in jobs.py (total up to 6 bytes), and up to 4 tokens drawn from option tokens, negative numbers and values; 8 registered options of every kind', 'thorough': 'the same up to total 8 bytes and 6 drawn tokens'},
  quick=T([2, 2, 1], [10, 10, 10, 1], [4, 2], [10, 13, 10, 12], [11, 13, 10, 12], [4, 1], [2, 2], [2, 1, 1], [10, 2], [11, 4], [11, 2], [2, 3], [], [0], [1], [2], [3], [4], [10, 0], [6]),
  thorough=T([4, 4], [2, 2, 2], [2, 1, 2, 1], [10, 10, 10, 10, 1], [10, 13, 10, 13, 10, 12], [10, 12, 11, 12], [11, 13, 11, 12], [10, 2, 10, 2], [4, 2, 2], [4, 1, 2], [11, 4, 2], [10, 5], [8], [7], [6], [5], [3, 3], [2, 2, 1], [4, 2], [], [0], [1], [2], [3], [4]))
JOBS['O02'] = dict(covers=['stored', 'refused'], bounds={'quick': 'every value text of 0..3 arbitrary bytes for each option type, and of 4..11 digits, signs and letters for the integer types; acceptance test absent, of arbitrary verdict, or rejecting exactly the value', 'thorough': 'texts of 0..4 arbitrary bytes and up to 20 digits'},
  quick=[[t, n, m, 0] for t in range(10) for n in range(3, -1, -1) for m in range(3)] + [[t, n, 0, 1] for t in (0, 1, 4, 7) for n in (4, 6, 10, 11)], thorough=[[t, n, m, 0] for t in range(10) for n in range(0, 5) for m in range(3)] + [[t, n, m, 1] for t in (0, 1, 2, 4, 7, 8, 9) for n in range(5, 21) for m in (0, 2)])
JOBS['O03'] = dict(covers=['accepted', 'several tokens', 'quoted', 'argv'], bounds={'quick': 'every command string of 0..4 arbitrary bytes, every 0..3 byte continuation of \'-v "a<tab>\', argv of up to three tokens', 'thorough': 'command strings of 0..6 bytes, continuations of 0..5 bytes, argv of up to five tokens'},
  quick=[[0, n] for n in range(4, -1, -1)] + [[1, n] for n in range(3, -1, -1)] + [[2, 99], [2, 2, 99], [2, 10, 2, 99], [2, 2, 2, 99]], thorough=[[0, n] for n in range(7)] + [[1, n] for n in range(6)] + [[2, 99], [2, 2, 99], [2, 10, 2, 99], [2, 2, 2, 99], [2, 10, 2, 10, 1, 1, 99]])
JOBS['O04'] = dict(covers=['any', 'accepted', 'refused', 'empty entry'], bounds={'quick': 'every string of 0..3 arbitrary bytes (no invalid access, both entry points agree); up to 2 well-formed entries over all keys with arbitrary 1-byte values, 1 entry with 2-byte values', 'thorough': 'every string of 0..5 bytes; up to 3 entries and 3-byte values'},
  quick=[[1, 2, 1, f] for f in range(1, 11)] + [[1, 1, 2, 0], [1, 1, 1, 0]] + [[0, n] for n in range(4)], thorough=[[0, n] for n in range(6)] + [[1, 1, v, 0] for v in (1, 2, 3)] + [[1, 2, 1, f] for f in range(1, 11)] + [[1, 2, 2, f] for f in range(1, 11)] + [[1, 3, 1, f] for f in range(1, 11)])
JOBS['O05'] = dict(covers=['present', 'refused', 'outside'], bounds={'quick': 'two parses of one object with up to 2 tokens of arbitrary bytes each or 4 drawn tokens; every 32-bit position', 'thorough': 'up to three parses'},
  quick=T([10, 13, 10, 13], [10, 13, 98, 10, 13], [98], [2, 98, 2], [10, 98, 12], [10, 98, 12, 1], [10, 10, 98, 10, 1], [2, 1, 98, 1], [1, 98, 1, 98, 1]), thorough=T([10, 13, 10, 13], [10, 13, 98, 10, 13], [10, 13, 10, 98, 10, 13], [98], [2, 98, 2], [2, 98, 4], [4, 98, 2], [10, 98, 12], [10, 10, 98, 10, 1], [2, 1, 98, 1], [10, 98, 10, 98, 12], [2, 2, 98, 2], [10, 12, 98, 10, 98, 10, 1]))

def _hist(what, n, full):  # every history of n operations, split by the first operation (5 ways with one subscription, 9 with two)
    return [[k, 0, what, 2] for k in range(n)] + [[n, f, what, 2] for f in range(1, 11)] + ([[n, f, what, 1] for f in range(1, 7)] + [[n, f, what, 3] for f in range(1, 14)] if full else [])
_HB = 'all histories of up to %d operations (put, put naming the sender, take, clear, end, start) on one mailbox with 2 subscriptions at the start and at most 3 at a time%s; message contents arbitrary'
JOBS['M01'] = dict(covers=['delivered', 'nothing to take', 'cleared', 'ended with messages', 'late subscription'], bounds='quick: ' + _HB % (5, '') + '; thorough: ' + _HB % (6, ', and 1 or 3 at the start'), quick=_hist(1, 5, False), thorough=_hist(1, 6, True))
JOBS['M02'] = dict(harness='M01', covers=['raised', 'delivered', 'cleared', 'ended with messages', 'late subscription'], bounds='quick: ' + _HB % (5, '') + '; thorough: ' + _HB % (6, ', and 1 or 3 at the start') + '; two mailboxes with up to 2 messages each and 2 mismatched operations out of 4; conversions between two message types', quick=_hist(2, 5, False) + [[0, 0, 10], [0, 0, 11]], thorough=_hist(2, 6, True) + [[0, 0, 10], [0, 0, 11]])
JOBS['M03'] = dict(harness='M01', covers=['mailbox destroyed', 'cleared', 'ended with messages', 'done'], bounds='quick: ' + _HB % (5, '') + ', a reader holding the last message taken, then the mailbox or the subscriptions destroyed; thorough: ' + _HB % (6, ', and 1 or 3 at the start'), quick=_hist(3, 5, False), thorough=_hist(3, 6, True))
JOBS['M04'] = dict(threads=True, covers=['ran', 'shared read'], bounds='every schedule (switching at lock, wait and atomic operations; everything else must be free of data races) and every program of: quick: 2 threads x 2 of 10 operations, 3 threads x 1 of 10, 2 threads x 3 of (put, put omitting, get own, get shared); thorough: 2 threads x 3 of 8, 3 threads x 2 of 5, 3 x 1 with 2 messages waiting, 4 threads x 1 of 6; at most 2 messages waiting at the start',
    quick=[[2, 2, 1, 1023, f, 99] for f in range(10)] + [[3, 1, 1, 1023, f, 99] for f in range(10)] + [[2, 3, 0, 30, f, 99] for f in (1, 2, 3, 4)],
    thorough=[[2, 2, 2, 1023, f, 99] for f in range(10)] + [[3, 1, 2, 1023, f, 99] for f in range(10)] + [[2, 3, 1, 0x1be, f, g] for f in (1, 2, 3, 4, 7, 8) for g in (1, 2, 3, 4, 7, 8)] + [[3, 2, 0, 0x11e, f, g] for f in (1, 2, 3, 4, 8) for g in (1, 2, 3, 4, 8)] + [[4, 1, 1, 0x19a, f, g] for f in (1, 3, 4, 7, 8) for g in (1, 3, 4, 7, 8)])
_BQ = [[2, 2, 4, 0, 2], [2, 2, 3, 2, 2], [3, 3, 2, 0, 0], [3, 3, 1, 2, 1], [2, 3, 2, 0, 0], [2, 4, 1, 1, 0], [4, 4, 1, 0, 0], [1, 2, 3, 0, 2], [2, 2, 2, 2, 2], [3, 4, 1, 0, 1], [2, 2, 5, 2, 2], [3, 3, 2, 1, 0]]
_BT = _BQ + [[2, 2, 6, 2, 2], [3, 3, 3, 0, 2], [3, 3, 2, 1, 2], [2, 2, 8, 1, 2], [2, 2, 6, 2, 0], [3, 3, 1, 3, 2], [2, 3, 2, 1, 1], [2, 4, 2, 0, 0], [4, 4, 1, 1, 0], [5, 5, 1, 0, 0], [3, 3, 3, 0, 0]]
_BB = 'every schedule (switching at lock, wait and atomic operations; everything else must be free of data races) of the listed shapes (waiters, threads, rounds, injected spurious wake-ups): quick %s; thorough also %s; waits without a limit, with one, and any mixture of both'
def _sh(l): return ' '.join('/'.join(map(str, x[:4])) for x in l)
JOBS['B01'] = dict(threads=True, covers=['released', 'all done', 'too few'], bounds=_BB % (_sh(_BQ), _sh(_BT[len(_BQ):])) + '; 1 to 3 (thorough 4) threads with every larger 32-bit number of waiters', quick=[x + [1] for x in _BQ] + [[0, 2, 1, 2], [0, 2, 2, 2], [0, 2, 3, 1]], thorough=[x + [1] for x in _BT] + [[0, 2, 1, 4], [0, 2, 2, 4], [0, 2, 3, 2], [0, 2, 4, 0]])
JOBS['B02'] = dict(harness='B01', threads=True, covers=['expired', 'no limit', 'released', 'all done'], bounds=_BB % (_sh(_BQ), _sh(_BT[len(_BQ):])) + '; time limits: every unsigned 64-bit number of milliseconds and every non-negative 64-bit duration (up to 100 years must be exact)', quick=[x + [2] for x in _BQ] + [[0, 0, 64], [0, 1, 64]], thorough=[x + [2] for x in _BT] + [[0, 0, 64], [0, 1, 64]])
_TQ = [[2, 2, 199, 1, 1, 1], [2, 1, 19, 1, 1, 2], [2, 2, 190, 2, 0, 2], [2, 2, 122, 2, 1, 1], [2, 2, 111, 3, 0, 0], [3, 3, 1111, 1, 0, 1], [3, 3, 1220, 1, 0, 1], [2, 3, 1120, 1, 0, 1], [2, 3, 1111, 1, 0, 0], [3, 2, 122, 1, 1, 2], [3, 3, 1100, 1, 1, 1]]
_TT = _TQ + [[2, 2, 199, 3, 0, 1], [2, 2, 122, 3, 1, 1], [3, 3, 1222, 1, 1, 1], [2, 3, 1220, 2, 0, 0], [4, 4, 11000, 1, 0, 0], [4, 4, 11100, 1, 0, 0], [4, 3, 1222, 1, 1, 2], [3, 3, 1120, 2, 0, 0]]
JOBS['B03'] = dict(threads=True, covers=['timed out', 'corrupt', 'released', 'late'], bounds='every schedule and every order of expiry, for the listed shapes (waiters, threads, limit of each thread: 0 none, k any number of 1..4^k ms, rounds per thread, spurious wake-ups, later waits): quick ' + ' '.join('/'.join(map(str, x[:2])) + '/' + str(x[2])[1:] + '/' + '/'.join(map(str, x[3:])) for x in _TQ) + '; thorough also ' + ' '.join('/'.join(map(str, x[:2])) + '/' + str(x[2])[1:] + '/' + '/'.join(map(str, x[3:])) for x in _TT[len(_TQ):]), quick=_TQ, thorough=_TT)
JOBS['P01'] = dict(covers=['missing', 'deep', 'found'], bounds={'quick': 'four shapes of tree (up to 3 levels, two keys on a level) with arbitrary 1-byte keys and every path of 0..5 arbitrary bytes; 3-byte keys and paths over the bytes a, b, blank, colon', 'thorough': 'the same with paths of up to 7 bytes, 2-byte keys and paths of up to 8 bytes'},
  quick=[[n, 0, 1, 0] for n in range(6)] + [[n, 1, 1, 0] for n in range(6)] + [[n, 2, 2, 0] for n in range(5)] + [[n, 3, 1, 0] for n in range(5)] + [[3, 2, 3, 1], [7, 0, 3, 1]], thorough=[[n, s, 1, 0] for n in range(8) for s in range(4)] + [[n, s, 2, 0] for n in range(9) for s in range(4)] + [[n, s, 3, 1] for n in (3, 7, 8, 11) for s in range(4)])
JOBS['P02'] = dict(yaml=True, covers=['scalar', 'sequence', 'inner map', 'loaded', 'missing file'], bounds={'quick': 'every document of maps nested up to 3 deep with up to 1 or (2 deep) 2 entries each, sequences of up to 3 scalars, keys and scalars of 1 or 2 arbitrary bytes', 'thorough': 'maps nested up to 4 deep with up to 1, 2 deep with up to 2, or flat with up to 4 entries'},
  quick=[[2, 1, 2, 1, 0, 0], [1, 2, 1, 1, 0, 1], [0, 1, 1, 1, 1, 0], [0, 1, 1, 1, 1, 1], [0, 3, 1, 2, 0, 0], [0, 2, 3, 1, 0, 1], [1, 1, 2, 2, 0, 0]], thorough=[[2, 1, 2, 1, 0, 0], [1, 2, 1, 1, 0, 1], [0, 1, 1, 1, 1, 0], [0, 1, 1, 1, 1, 1], [3, 1, 3, 2, 0, 0], [1, 2, 2, 1, 0, 0], [0, 4, 1, 1, 0, 1], [0, 3, 3, 1, 0, 0], [2, 2, 1, 1, 0, 0]],
  assume=['yaml-cpp is a binary library without source here: models/yaml supplies the documents and mirrors the node, iterator and exception interface of yaml-cpp 0.8; parsing of YAML text is outside the check'])
JOBS['P03'] = dict(covers=['converted', 'refused'], bounds={'quick': 'every text of 0..3 arbitrary bytes for int, unsigned, long, short, string, char, double (0..2) and bool, of 4..11 digits, signs and blanks for the integer types; depth 1..3, read at the node and through the tree', 'thorough': 'texts of 0..4 bytes (double 0..3), up to 20 digits'},
  quick=[[t, n, 0, d, w] for t in range(8) for n in range(4) for d, w in ((2, 1), (1, 0)) if not (t == 5 and n > 2)] + [[0, 1, 0, 3, 1]] + [[t, n, 1, 2, 1] for t in (0, 1, 2, 7) for n in (4, 6, 11)], thorough=[[t, n, 0, d, w] for t in range(8) for n in range(5) for d, w in ((2, 1), (1, 0), (3, 1)) if not (t == 5 and n > 3)] + [[t, n, 1, 2, 1] for t in (0, 1, 2, 7) for n in range(5, 21)])
JOBS['O06'] = dict(covers=['help', 'accepted', 'refused', 'unknown', 'requested'], bounds={'quick': 'up to 3 information texts and six options, one of them with a name and an abbreviation of arbitrary bytes, documentation, information and name texts of 0..2 arbitrary bytes; values and tokens of 0..4 arbitrary bytes with an acceptance test of arbitrary verdict and a message of one arbitrary byte; both forms of help request after 0..5 other tokens', 'thorough': 'up to 4 information texts; texts of 0..4, values and tokens of 0..6 arbitrary bytes'},
  quick=[[0, n, k, i] for n in range(3) for k in (0, 1) for i in (0, 2, 3)] + [[1, n, k] for n in range(4) for k in range(3)] + [[2, n, 0] for n in range(5)] + [[3, n, 0] for n in (0, 1, 2, 4, 5)], thorough=[[0, n, k, i] for n in range(5) for k in (0, 1) for i in range(5)] + [[1, n, k] for n in range(6) for k in range(3)] + [[2, n, 0] for n in range(7)] + [[3, n, 0] for n in (0, 1, 2, 4, 5)])
JOBS['P04'] = dict(max_inst=200000000, covers=['named'], bounds={'quick': 'trees of four shapes (up to six levels, two keys on a level) with keys of 1..4 arbitrary bytes', 'thorough': 'keys of 1..8 arbitrary bytes'}, quick=[[k, 0, 0, s] for k in range(1, 5) for s in range(4)], thorough=[[k, 0, 0, s] for k in range(1, 9) for s in range(4)])
JOBS['P05'] = dict(harness='P04', covers=['dumped'], bounds={'quick': 'trees of four shapes (up to six levels, two keys on a level, two elements) with keys of 1..3 and texts of 0..2 arbitrary bytes', 'thorough': 'keys of 1..5 and texts of 0..5 arbitrary bytes'}, quick=[[k, n, 1, s] for k in range(1, 4) for n in range(3) for s in range(4)], thorough=[[k, n, 1, s] for k in range(1, 6) for n in range(6) for s in range(4)])
JOBS['X01'] = dict(threads=True, covers=['caught', 'barrier'], bounds={'quick': 'names, paths and texts of 0..3 arbitrary bytes; time limits of up to 2^36 ms', 'thorough': 'names, paths and texts of 0..6 arbitrary bytes; time limits of up to 2^36 ms'}, quick=[[c, n, 36] for c in range(7) for n in range(4)], thorough=[[c, n, 36] for c in range(7) for n in range(7)])

# Long and large structured inputs: a fixed shape with a few arbitrary bytes, choices or schedules in it (sizes beyond the small bounds, where counters, buffers and indices of a byte or of sixteen bits would break)
def _more(prop, text, quick, thorough=()):
    j = JOBS[prop]; b = j['bounds'] if isinstance(j['bounds'], dict) else {'quick': j['bounds'], 'thorough': j['bounds']}
    j['bounds'] = {'quick': b['quick'] + '; ' + text, 'thorough': b['thorough'] + '; ' + text + ' and larger'}; j['quick'] = j['quick'] + [list(x) for x in quick]; j['thorough'] = j['thorough'] + [list(x) for x in quick] + [list(x) for x in thorough]
_more('U01', 'texts of 100, 300 and 1000 bytes with groups of blanks and four arbitrary bytes', [[300, 7], [100, 3], [1000, 30], [70000, 700]], [[5000, 100], [2000, 5]])
_more('U02', 'texts of 100, 300, 1000 and 70000 bytes with many pieces and 1, 2 or 20 delimiters and three arbitrary bytes (the 70000 one: one)', [[300, 1, 7], [100, 3, 20], [1000, 2, 1], [260, 1, 1], [100, 20, 9], [70000, 1, 30000, 1]], [[300, 7, 1], [70000, 1, 700, 1], [5000, 1, 40]])
_more('F01', 'up to 300 placeholders, literals and values of up to 300 bytes with some arbitrary bytes; placeholder numbers of up to nine arbitrary digits, of 2^32 + 0..99 and 2^64 + 0..99, and behind sixteen zeros', [[3, 20, 40, 50], [3, 300, 1, 1], [3, 3, 300, 300], [3, 60, 0, 20], [2, 5, 10], [2, 9, 10], [2, 3, 10, 1], [2, 2, 10, 2], [2, 2, 3, 3]], [[3, 1000, 1, 1], [3, 3, 5000, 5000], [2, 4, 10, 1]])
_more('F02', 'formats of 12 placeholders', [[111, 3, 12]], [[117, 5, 18]])
_more('F03', 'widths 40, 127, 256, 300 and 1000', [[1, 1, 40], [1, 1, 127], [0, 0, 256], [1, 1, 300], [0, 1, 1000]])
_more('F04', 'widths 40, 130, 256, 300 and 1000', [[0, 1, 40], [4, 1, 256], [3, 0, 1000], [1, 0, 300], [2, 1, 70], [3, 1, 130]], [[2, 1, 130], [2, 0, 256]])
_more('F05', 'strings of up to 300 bytes, three of them arbitrary, and widths of up to 70000', [[n, 3, w, l] for n in (3, 15, 16, 31, 255, 256, 300) for w in (40, 127, 128, 255, 256, 300) for l in (0, 1)] + [[3, 3, w, l] for w in (40000, 70000) for l in (0, 1)])
_more('F06', 'widths of up to 1000 and up to 40 digits', [[0, 40, 25, 1], [1, 130, 40, 0], [2, 256, 25, 1], [3, 300, 6, 1], [0, 1000, 40, 0]])
_more('F08', 'widths 130 and 256', [[c, w] for c in range(12) for w in (130, 256)])
_more('O01', 'up to 5000 options and arguments in a row, texts of up to 70000 bytes with a few arbitrary bytes; up to 52 registered options, any two of them named', T([97, 40, 3], [97, 300, 2], [97, 3, 300], [97, 10, 40], [97, 5, 2, 2], [97, 5000, 2], [97, 2, 70000]) + [[96, 10], [96, 26], [96, 52]], [[96, 90]])
_more('O02', 'texts of 16, 300 and 70000 bytes with three arbitrary bytes; up to 300 zeros before three digits, or blanks before two characters', [[t, n, m, 3] for t in (0, 1, 4, 7, 8) for n, m in ((8, 2), (40, 0), (300, 0))] + [[3, 16, 0, 2], [3, 300, 0, 2], [3, 70000, 1, 2], [5, 300, 2, 2], [5, 16, 1, 2], [2, 20, 0, 2], [0, 33, 0, 4], [1, 300, 0, 4]])
_more('O03', 'command strings of up to 200 options and arguments and of texts of up to 70000 bytes with a few arbitrary bytes; argv of 100 tokens', [[3, 40, 3], [3, 200, 3], [3, 5, 300], [3, 3, 70000], [2, 97, 100, 3, 99]])
_more('O04', 'up to 500 entries and values of up to 70000 bytes with a few arbitrary bytes', [[2, 10, 3], [2, 100, 2], [2, 500, 2], [2, 10, 300], [2, 3, 70000]])
_more('O05', 'up to 300 options and arguments in each of three parses; 40 and 300 parses', T([98, 97, 40, 3, 98, 97, 300, 2], [97, 5, 3, 98, 97, 5, 300]) + [[95, 40, 3, 2], [95, 300, 1, 2]])
_more('O06', 'up to 300 information texts, 30 options, texts of up to 5000 bytes with some arbitrary bytes', [[4, 10, 20, 10, 0], [4, 40, 5, 30, 0], [4, 300, 3, 3, 1], [4, 2, 300, 3, 0], [4, 1, 5000, 1, 0]], [[4, 40, 5, 90, 0]])
for _p, _w in (('M01', 1), ('M02', 2), ('M03', 3)): _more(_p, 'up to 5000 messages, 300 subscriptions, 5000 subscriptions coming and going, with one of several events at one of several moments', [[3, 300, 20 + _w, 30], [40, 30, 20 + _w, 10], [300, 5, 20 + _w, 3], [2, 10, 20 + _w, 300], [1, 5000, 20 + _w, 0], [2, 3, 20 + _w, 5000]] if _w == 1 else [[3, 300, 20 + _w, 30], [40, 30, 20 + _w, 10], [300, 5, 20 + _w, 3], [2, 10, 20 + _w, 300], [1, 1000, 20 + _w, 0], [2, 3, 20 + _w, 1000]], [[2, 3, 20 + _w, 20000]])
_more('M04', 'up to 8 threads of 5 and 2 threads of 30 rounds of put, own and shared get, in all schedules at most one departure away from round-robin (2 threads of 10 and 3 of 3: two)', [[102, 30, 1], [103, 10, 1], [102, 100, 0], [108, 5, 1], [102, 10, 2], [103, 3, 2]], [[120, 2, 1], [102, 20, 2], [102, 6, 3], [104, 3, 2]])
_BL = [[2, 2, 300, 0, 0], [2, 2, 40, 0, 0], [3, 3, 40, 0, 0], [6, 6, 2, 0, 0], [12, 12, 1, 0, 0], [20, 20, 2, 0, 0], [1, 1, 300, 0, 2]]; _BD = [1, 2, 2, 3, 3, 1, 0]
for _p, _w in (('B01', 1), ('B02', 2)): _more(_p, 'up to 300 rounds of two threads and up to 20 threads, in all schedules at most one (6 and 12 threads: two) departures away from round-robin', [x + [_w, d] for x, d in zip(_BL, _BD)], [[2, 2, 40, 1, 0, _w, 3], [3, 3, 20, 1, 1, _w, 3], [8, 8, 2, 1, 0, _w, 3]])
_more('B03', 'up to 40 rounds of two threads and up to 20 waiters, one of them with a limit, in all schedules at most one departure away from round-robin', [[20, 19, 3, 1, 0, 3, 2], [12, 12, 11, 3, 0, 2, 2], [2, 2, 110, 40, 0, 1, 2], [10, 9, 2, 1, 0, 1, 2], [2, 1, 11, 1, 0, 20, 1]])
_more('P01', 'trees of 40 and 130 levels, 300 keys on a level, keys of 300 bytes with some arbitrary bytes, any level of them', [[3, 4, 2, 1], [40, 4, 1, 5], [6, 4, 2, 300], [3, 4, 300, 2], [130, 4, 0, 3]], [[1000, 4, 0, 3]])
_more('P02', 'documents of 40 entries on two levels, of 300 entries, nested 130 deep, keys and scalars of up to 300 bytes with some arbitrary bytes', [[9, 2, 40, 17, 0, 0], [9, 1, 300, 2, 0, 1], [9, 2, 3, 300, 0, 0], [9, 130, 2, 3, 0, 0], [9, 40, 2, 3, 0, 0]])
_more('P03', 'texts of up to 70000 bytes with three arbitrary bytes, up to 300 zeros before three digits, blanks before two characters; paths of up to 40 keys', [[3, 300, 2, 2, 1], [3, 70000, 2, 1, 1], [0, 40, 3, 40, 1], [1, 300, 3, 1, 0], [2, 40, 4, 2, 1], [7, 20, 3, 9, 1], [0, 300, 4, 12, 1]])
_more('P04', 'chains of 50 levels, keys of 300 bytes with three arbitrary bytes each', [[3, 0, 0, 50], [300, 0, 0, 14], [12, 0, 0, 160]])
_more('P05', 'chains of 16 levels with 16 elements, keys of 300 bytes with some arbitrary bytes', [[3, 2, 1, 26], [40, 3, 1, 12], [300, 3, 1, 11]])
_more('X01', 'names and texts of 40 and 300 bytes, two of them arbitrary', [[c, n, 36] for c in range(7) for n in (40, 300)])
JOBS['F09'] = dict(covers=['copied', 'copy filled', 'original destroyed', 'assigned', 'done'], bounds={'quick': 'every history of up to 4 operations (a value, reset, copy, assignment, destruction) on two objects and their copies, one format string of 0..1 arbitrary bytes, values of one arbitrary byte', 'thorough': 'histories of up to 5 operations, format strings of up to 2 bytes'}, quick=[[4, 1, f] for f in range(1, 8)] + [[3, 0, 0]], thorough=[[5, 1, f] for f in range(1, 8)] + [[4, 2, f] for f in range(1, 8)])
JOBS['O07'] = dict(covers=['registered', 'refused', 'accepted', 'done'], bounds={'quick': 'every history of 2 steps (a parse of two arbitrary tokens of chosen lengths, of two arbitrary bytes, of a vector and an integer option, a new option) on two objects', 'thorough': '3 steps'}, quick=[[2, f] for f in range(1, 9)], thorough=[[3, f] for f in range(1, 9)])
JOBS['B04'] = dict(threads=True, covers=['timed out', 'both released', 'done'], bounds={'quick': 'two barriers for 1..4 waiters with 2..5 threads each: one or two rounds in every schedule (up to 2 and 2 threads), up to 10 rounds and 8 threads in every schedule at most 1 to 5 departures away from round-robin; one thread with any limit of 1..4 or 1..16 ms', 'thorough': 'up to 40 rounds, 1 and 4 threads in every schedule, up to six departures'}, quick=[[2, 2, 2, 2, 1, 0, 0], [1, 2, 1, 2, 2, 0, 0], [1, 2, 1, 3, 1, 1, 0], [2, 2, 2, 2, 1, 1, 5], [2, 2, 2, 2, 2, 1, 4], [2, 2, 2, 2, 1, 2, 4], [3, 2, 3, 2, 2, 1, 3], [4, 4, 4, 4, 3, 0, 2], [2, 3, 2, 3, 10, 1, 2], [2, 2, 4, 2, 1, 0, 4], [2, 5, 3, 5, 2, 1, 2]], thorough=[[1, 2, 1, 4, 1, 1, 0], [1, 2, 1, 2, 2, 1, 0], [2, 2, 2, 2, 1, 1, 7], [2, 2, 2, 2, 2, 1, 6], [3, 2, 3, 2, 2, 1, 4], [4, 4, 4, 4, 3, 0, 3], [2, 3, 2, 3, 10, 1, 3], [2, 2, 2, 2, 40, 0, 3], [2, 2, 4, 2, 1, 0, 6]])
JOBS['P06'] = dict(yaml=True, covers=['missing file', 'scalar document', 'replaced', 'two trees', 'done'], bounds={'quick': 'two documents of one or two entries and three of one entry, each of any form (scalar, sequence of up to two elements, map, scalar document, missing file), keys and texts of 1..2 arbitrary bytes; a second tree reading them in the other order', 'thorough': 'two documents of three entries, three of two'}, quick=[[2, 1, 1, 1, 0], [2, 2, 1, 1, 0], [3, 1, 1, 1, 0], [2, 1, 3, 1, 0], [2, 2, 2, 1, 1]], thorough=[[2, 3, 1, 1, f] for f in range(1, 6)] + [[3, 2, 1, 1, f] for f in range(1, 6)] + [[4, 1, 1, 1, 0], [2, 2, 2, 1, 0]])
JOBS['X02'] = dict(threads=True, covers=['done'], bounds={'quick': 'two threads each doing any of six jobs (two uses of Format, the text functions, Options, PropertyTree, MailBox) on objects of their own with an arbitrary byte and number, three and four threads doing some of them, in every schedule at most two departures away from round-robin (and every pair of accesses to shared memory ordered)', 'thorough': 'three threads with the same jobs, up to four departures'}, quick=[[2, a, b] for a in range(6) for b in range(6)] + [[3, 99, 4], [3, 0, 3, 1], [3, 2, 2, 1], [4, 3, 3, 1], [4, 4, 4]], thorough=[[3, a, b] for a in range(6) for b in range(6)] + [[2, a, b, 4] for a in range(6) for b in range(6)])
_more('F09', 'two format strings of 10, 18, 39 and 309 bytes that differ in one arbitrary byte at one of seven places', [[2, 0, 0, 1], [2, 0, 0, 30], [2, 0, 0, 300], [3, 0, 3, 9]], [[3, 0, f, 1] for f in range(1, 8)])
NOT_APPLICABLE = {}
