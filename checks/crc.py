"""C06: the WeatherLink CRC."""
from wlsa.runner import prop
from wlsa.harness import *
from wlsa.compare import Diff
from wlsa import bits, terms as tm

Q = 'weatherlink.models:calculate_weatherlink_crc'


def ccitt_step(state, byte):
    """CRC-CCITT (polynomial 0x1021, most significant bit first), one byte, on bit vectors."""
    s = bits.xor(state, [frozenset()] * 8 + byte)
    s = s + [frozenset()] * (16 - len(s))
    for _ in range(8):
        top = s[15]
        s = [frozenset()] + s[:15]
        for i in (0, 5, 12):
            s[i] = s[i] ^ top
    return bits.trim(s)


@prop('C06', 38, 'the CRC is a fold over all bytes in order, from 0, whose step is, bit for bit, the CRC-CCITT step '
      '(affine bit-vector domain; every table entry inspected)')
def c06(lab):
    it = lab.engine(['weatherlink.models'])
    st = it.new_state()
    ex = []
    data = sym('data', 'bytes')
    where = lab.where(it, Q)
    v = it.call(it.lookup(Q), [data], {}, st, None, ex, None)
    v = it.freeze(v, st)
    lab.done(it)
    lab.oblige(where, 'no byte string makes it fail', not [e for e in ex if e.st.pc is not FALSE])
    if not (v.op == 'out' and v.args[1].op == 'cv'):
        by_length(lab, where, v, data)
        return
    loop, cv = v.args
    lab.oblige(where, 'the result is a running value over the bytes', True)
    idx = mk('idx', (loop.args[0],), 'int')
    lab.oblige(where, 'the fold visits every byte, once, in order', visits_all(loop, data), show(loop, 6))
    init, step = cv.args[1], cv.args[2]
    lab.oblige(where, 'the fold starts from zero', init is ZERO or (init.op == 'num' and init.args[0] == 0), show(init))
    prev = [t for t in tm_find(step, lambda t: t.op == 'cv') if t.args[1] is init]
    top = None
    for t in prev:      # the outermost occurrence is the previous state
        if top is None or tm.contains(t, lambda u: u is top):
            top = t
    byte = tm.app('byte', (data, idx), 'int')
    if not lab.oblige(where, 'the step uses the previous value and the byte', top is not None and
                      tm.contains(step, lambda u: u is byte), show(step, 5)):
        return
    env = {top: bits.var('crc', 16), byte: bits.var('byte', 8)}
    E = bits.Evaluator(env)
    try:
        got = E.bits(step)
    except bits.NotAffine as e:
        lab.oblige(where, 'the table is linear over GF(2)', False, str(e))
        return
    except tm.AnalysisError as e:
        # not affine: fold constants through the step to find a point where it differs
        for c in [0, 0xFFFF] + [1 << i for i in range(16)]:
            for b in range(256):
                g = bits.Evaluator({top: bits.const_bits(c), byte: bits.const_bits(b)}).bits(step)
                n = ccitt_step(bits.const_bits(c), bits.const_bits(b))
                if g != n:
                    lab.oblige(where, 'the step is the CRC-CCITT step', False,
                               'value %#x, byte %#x' % (c, b))
                    return
        raise
    need = ccitt_step(env[top], env[byte])
    lab.oblige(where, 'the running value stays in 16 bits', len(got) <= 16)
    z = frozenset()
    for i in range(16):
        g = got[i] if i < len(got) else z
        n = need[i] if i < len(need) else z
        lab.oblige(where, 'bit %d of the step' % i, g == n,
                   'found %s, required %s' % (bits.show_form(g), bits.show_form(n)))
    # appending the CRC, high byte first, gives zero
    s = bits.var('crc', 16)
    r = run(E_step(step, top, byte), s, s[8:])
    r = run(E_step(step, top, byte), r + [z] * (16 - len(r)), s[:8])
    for i in range(16):
        f = r[i] if i < len(r) else z
        lab.oblige(where, 'bit %d after appending the CRC itself is zero' % i, not f, bits.show_form(f))


LENGTHS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 99, 100, 267)


def visits_all(loop, data):
    idx = mk('idx', (loop.args[0],), 'int')
    more = tm.cmp_le(tm.p_add(idx, app_len(data), -1), num(-1, 'int'), True)
    return Diff().equal(loop.args[1], not_(more))


def by_length(lab, where, v, data):
    """The result is made from several running values: every loop must visit every byte, and the result is compared,
    bit for bit, with the fold of the CRC step for a family of lengths."""
    loops = [t.args[0] for t in tm_find(v, lambda t: t.op == 'out')]
    if not lab.oblige(where, 'the result is a running value over the bytes', bool(loops), show(v, 5)):
        return
    for loop in {x.key: x for x in loops}.values():
        lab.oblige(where, 'the fold visits every byte, once, in order', visits_all(loop, data), show(loop, 6))
    it = lab.engine(['weatherlink.models'], unroll=5000)
    for n in LENGTHS:
        message = tm.tuple_(*[sym('byte%d' % i, 'int', lo=0, hi=255) for i in range(n)])
        st, ex = it.new_state(), []
        r = it.freeze(it.call(it.lookup(Q), [message], {}, st, None, ex, None), st)
        lab.oblige(where, '%d bytes: no failure' % n, not [e for e in ex if e.st.pc is not FALSE])
        env = {b: bits.var('byte%d' % i, 8) for i, b in enumerate(message.args)}
        need = []
        for b in message.args:
            need = ccitt_step(need + [frozenset()] * (16 - len(need)), env[b])
        got = bits.Evaluator(env).bits(r)
        lab.oblige(where, '%d bytes: at most 16 bits' % n, len(got) <= 16)
        for i in range(16):
            g, w = (x[i] if i < len(x) else frozenset() for x in (got, need))
            lab.oblige(where, '%d bytes: bit %d' % (n, i), g == w, 'found %.200s, required %.200s' % (
                bits.show_form(g), bits.show_form(w)))
    lab.done(it)
    lab.assumptions.append('the result is made from several running values: compared for %s bytes only' %
                           ', '.join(map(str, LENGTHS)))


def app_len(x):
    return tm.app('len', (x,), 'int')


def E_step(step, top, byte):
    return lambda s, b: bits.Evaluator({top: s, byte: b}).bits(step)


def run(f, s, b):
    return f(s, b)


def tm_find(t, pred):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack += list(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        stack += list(x.args)
    return out
