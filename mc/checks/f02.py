"""F02: features computed in stages, and calls one after another."""
import itertools
import numpy as np
from mc.mfccref import Ref
from mc.checks.f01 import dense

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of stage chains and options, and of all call histories up to a depth, on the real extractor'
BOUND = {
    'quick': 'all chains signal -> a (-> b) -> c of stages x energy, raw energy, power, floor, bank, liftering x loud and quiet signals of 4 lengths; all histories of up to 4 calls over 3 signals and reset, on one extractor and on two interleaved, all cuts of a signal into two pieces at a frame shift',
    'thorough': 'all histories of up to 5 calls, three pieces'}
ASSUMPTIONS = ['both extractors of a chain have the same options', 'the filter bank does not use bin 0, where an intermediate result carries the energy']
STEPS = ('fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum')
CHUNK = 2


def cases(tier):
    for i, a in enumerate(STEPS[:-1]):
        for b in STEPS[i:]:
            for fb in ('mel_kaldi', 'mel_etsi', 'linear'):
                yield dict(kind='chain', a=a, b=b, fb=fb)
    for first in range(4):
        for second in range(4):
            for o in range(4):
                yield dict(kind='history', first=first, second=second, depth=4 if tier == 'quick' else 5, o=o)
    for T in range(8, 33 if tier == 'quick' else 49, 3):
        yield dict(kind='cut', T=T)


def mk(**kw):
    from hyperion.feats.mfcc import MFCC
    return MFCC(**kw)


def near(ck, got, want, what, step):
    got, want = np.asarray(got), np.asarray(want)
    ck.eq(got.shape, want.shape, what + ': shape')
    if not got.size:
        return
    sc = np.abs(want).max()
    tol = dict(rtol=1e-3, atol=1e-5 * sc) if step in ('fft', 'fft_mag') else dict(rtol=1e-3, atol=2e-3)
    if not np.allclose(got, want, **tol):
        ck.fail('%s: got %s, want %s' % (what, got, want))


def run_case(ck, c):
    kind = c['kind']
    if kind == 'chain':
        chain(ck, c['a'], c['b'], c['fb'])
    elif kind == 'history':
        history(ck, c)
    else:
        cut(ck, c['T'])
    ck.trace()


def chain(ck, a, b, fb):
    for ue, raw, f2, fl, lift, hi in itertools.product((True, False), (True, False), (True, False), (0, 1e3), (22, 0), (0, -60)):
        if not ue and (fl or not raw):
            continue
        base = dict(fs=1000, frame_length=8, frame_shift=3, fft_length=16, dither=0, fb_type=fb, low_freq=70, high_freq=hi, num_filters=4, num_ceps=3, energy_floor=fl, raw_energy=raw, use_energy=ue,
                    use_fft2=f2, cepstral_lifter=lift)
        for amp in (1.0, 2e-3):
            for T in (7, 8, 14, 29):
                x = dense(T) * amp
                d = mk(output_step=b, **base).compute(x)
                y = mk(output_step=a, **base).compute(x)
                z = mk(input_step=a, output_step=b, **base).compute(y.copy())
                ck.step(3)
                what = 'signal of %d x %g -> %s -> %s with %s' % (T, amp, a, b, base)
                # a quiet signal without power is close to the floor of the logarithm
                near(ck, z, d, what, b)
                for m in STEPS[STEPS.index(a) + 1:STEPS.index(b)] if a != b else ():
                    w = mk(input_step=a, output_step=m, **base).compute(y.copy())
                    w = mk(input_step=m, output_step=b, **base).compute(w)
                    near(ck, w, d, what + ' through ' + m, b)
                    ck.step(2)
                if a != b and len(y):
                    # frame by frame
                    e = mk(input_step=a, output_step=b, **base)
                    for i in range(len(y)):
                        near(ck, e.compute(y[i:i + 1].copy()), d[i:i + 1], what + ', frame %d alone' % i, b)
                ck.state((a, b, fb, ue, raw, f2, fl, lift, hi, amp, T))


SIG = [11, 8, 21]
OPT = [dict(), dict(remove_dc_offset=False), dict(preemph_coeff=0), dict(snip_edges=False, use_energy=False)]


def history(ck, c):
    base = dict(fs=1000, frame_length=8, frame_shift=4, fft_length=16, dither=0.0, low_freq=70, num_filters=4, num_ceps=3, output_step='logfb')
    base.update(OPT[c['o']])
    xs = [dense(n, k) for k, n in enumerate(SIG)]
    ext, refs = [mk(**base), mk(**base)], [Ref(**base), Ref(**base)]
    alone = [mk(**base).compute(x) for x in xs]
    for n in range(1, c['depth'] - 1):
        for tail in itertools.product(range(4), repeat=n):
            h = (c['first'], c['second']) + tail
            for two in (False, True):
                for e, r in zip(ext, refs):
                    e.reset()
                    r.reset()
                fresh = [True, True]
                for i, op in enumerate(h):
                    w = i % 2 if two else 0
                    if op == 3:
                        ext[w].reset()
                        refs[w].reset()
                        fresh[w] = True
                        continue
                    y = ext[w].compute(xs[op])
                    ck.step()
                    what = 'calls %s%s, call %d' % (h, ' on two extractors' if two else '', i)
                    near(ck, y, refs[w].stages(xs[op])['logfb'], what, 'logfb')
                    if fresh[w]:
                        ck.check(np.array_equal(y, alone[op]), what + ': differs from the call alone')
                    fresh[w] = False
                ck.state((c['o'], h, two))


def cut(ck, T):
    for dc, pre, ue in itertools.product((True, False), (0, 0.97), (True, False)):
        base = dict(fs=1000, frame_length=8, frame_shift=4, fft_length=16, dither=0, low_freq=70, num_filters=4, num_ceps=3, output_step='logfb', remove_dc_offset=dc, preemph_coeff=pre, use_energy=ue)
        x = dense(T)
        m = mk(**base)
        whole = m.compute(x)
        cuts = [(i,) for i in range(4, T - 3, 4)]
        if ck.tier == 'thorough':
            cuts += [(i, j) for i in range(4, T - 3, 4) for j in range(i + 4, T - 3, 4)]
        for cs in cuts:
            m.reset()
            at = 0
            for k, e in enumerate(cs + (T,)):
                y = m.compute(x[at:e])
                ck.step()
                near(ck, y, whole[at // 4:at // 4 + len(y)], 'piece %d of a signal of %d cut at %s' % (k, T, cs), 'logfb')
                ck.eq(len(y), max(0, (e - at - 8 + 4) // 4), 'frames of a piece')
                at = e
            ck.state((T, cs, dc, pre, ue))
