"""name -> contract of every scalar primitive instantiation in drv/scalar.cc.
A contract is spec(A, ret, mem, ex): ret is None -> list of preconditions, else -> list of postconditions."""
import z3
from leaf import *

W = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
def nopre(f):
    return lambda A, r, m, ex: [] if r is None else [f(A, r)]
def shiftpre(f):
    # every shift amount except the one whose negation does not exist in int
    return lambda A, r, m, ex: [A['b'] != bv(-(1 << 31), 32)] if r is None else [f(A, r)]

def contracts(config):
    C = {}
    for t, w in W.items():
        ww = w + 4
        def low(x, w=w):
            return z3.Extract(w - 1, 0, x)
        C['s_add_' + t] = nopre(lambda A, r, w=w, ww=ww, low=low: r == low(clamp(sx(A['a'], ww) + sx(A['b'], ww), w)))
        C['s_sub_' + t] = nopre(lambda A, r, w=w, ww=ww, low=low: r == low(clamp(sx(A['a'], ww) - sx(A['b'], ww), w)))
        C['s_asr_' + t] = shiftpre(lambda A, r, w=w: r == asr_any(A['a'], A['b'], w))
        C['s_asl_' + t] = shiftpre(lambda A, r, w=w: r == asl_any(A['a'], A['b'], w))
        C['s_asrrnd_' + t] = shiftpre(lambda A, r, w=w: r == asr_rnd(A['a'], A['b'], w, config))
        C['s_aslrnd_' + t] = shiftpre(lambda A, r, w=w: r == asr_rnd(A['a'], -A['b'], w, config))
        C['s_ashr_' + t] = shiftpre(lambda A, r, w=w: r == asr_rnd(A['a'], A['b'], w, config))
        C['s_neg_' + t] = nopre(lambda A, r, w=w, ww=ww, low=low: r == low(clamp(-sx(A['a'], ww), w)))
        C['s_abs_' + t] = nopre(lambda A, r, w=w, ww=ww, low=low: r == low(clamp(z3.If(A['a'] < 0, -sx(A['a'], ww), sx(A['a'], ww)), w)))
        C['s_max_' + t] = nopre(lambda A, r: z3.And(r >= A['a'], r >= A['b'], z3.Or(r == A['a'], r == A['b'])))
        C['s_min_' + t] = nopre(lambda A, r: z3.And(r <= A['a'], r <= A['b'], z3.Or(r == A['a'], r == A['b'])))
        C['s_limit_' + t] = nopre(lambda A, r, w=w: r == limit(A['a'], w))
        C['s_bound_' + t] = (lambda A, r, m, ex: [A['lo'] <= A['hi']] if r is None else
                             [r == z3.If(A['a'] < A['lo'], A['lo'], z3.If(A['a'] > A['hi'], A['hi'], A['a']))])
        # saturation to w-b bits
        def satspec(A, r, m, ex, w=w):
            if r is None:
                return [z3.ULT(A['b'], bv(w, 32))]
            g = []
            for b in range(w):
                g.append(z3.Implies(A['b'] == b, sx(r, w + 4) == clamp(sx(A['a'], w + 4), w - b)))
            return [z3.And(*g)]
        C['s_sat_' + t] = satspec
        C['s_norm_' + t] = nopre(lambda A, r, w=w: is_norm(A['a'], r, w))
    for i, o in (('i8', 'i8'), ('i16', 'i8'), ('i16', 'i16'), ('i32', 'i8'), ('i32', 'i16'), ('i32', 'i32'),
                 ('i64', 'i8'), ('i64', 'i16'), ('i64', 'i32')):
        C['s_cast_%s_%s' % (i, o)] = shiftpre(lambda A, r, i=i, o=o: r == cast(A['a'], A['b'], W[i], W[o], config))
    C['s_cast_i8_i16'] = shiftpre(lambda A, r: r == cast(A['a'], A['b'], 8, 16, config, 16))
    C['s_cast_i16_i64'] = shiftpre(lambda A, r: r == asr_rnd(sx(A['a'], 64), A['b'], 64, config))
    C['s_cast1_i32_i16'] = nopre(lambda A, r: sx(r, 32) == clamp(A['a'], 16))
    C['s_cast1_i64_i16'] = nopre(lambda A, r: sx(r, 64) == clamp(A['a'], 16))
    C['s_acccast_i8'] = shiftpre(lambda A, r: r == cast(A['a'], A['b'], 32, 8, config))
    C['s_acccast_i16'] = shiftpre(lambda A, r: r == cast(A['a'], A['b'], 32, 16, config))
    C['s_acccast_i32'] = shiftpre(lambda A, r: r == asr_rnd(A['a'], A['b'], 32, config))
    C['s_accshift_i32'] = shiftpre(lambda A, r: r == asr_rnd(A['a'], A['b'], 32, config))
    C['s_accshift_i64'] = shiftpre(lambda A, r: r == asr_rnd(A['a'], A['b'], 64, config))
    mn = bv(-(1 << 31), 32)
    C['s_mulhigh'] = (lambda A, r, m, ex: [z3.Not(z3.And(A['a'] == mn, A['b'] == mn))] if r is None else
                      [sx(r, 80) == ((sx(A['a'], 80) * sx(A['b'], 80) + bv(1 << 30, 80)) >> 31)])
    C['s_mul_i32'] = nopre(lambda A, r: r == sx(A['a'], 64) * sx(A['b'], 64))
    C['s_mul_i16'] = nopre(lambda A, r: r == sx(A['a'], 32) * sx(A['b'], 32))
    C['s_mul_i8'] = nopre(lambda A, r: r == sx(A['a'], 16) * sx(A['b'], 16))
    for n, w in (('s_mac_8_8', 32), ('s_mac_16_16', 32), ('s_mac_16_8', 32), ('s_mac_40', 64)):
        # accumulation never saturates in the reference implementation; inputs that would overflow are excluded
        def macspec(A, r, m, ex, w=w):
            V = w + 8
            full = sx(A['c'], V) + sx(A['a'], V) * sx(A['b'], V)
            return [fits(full, w)] if r is None else [sx(r, V) == full]
        C[n] = macspec
    def nc(wi, wo):
        def f(A, r, m, ex):
            if r is None:
                return []
            sh = m('sh', 0, 4)
            return [is_norm(A['a'], bv(wi - wo, 32) - sh, wi), r == cast(A['a'], sh, wi, wo, config)]
        return f
    C['s_normcast_i32_i16'] = nc(32, 16)
    C['s_normcast_i32_i32'] = nc(32, 32)
    C['s_normcast_i32_i8'] = nc(32, 8)
    C['s_normcast_i64_i16'] = nc(64, 16)
    return C
