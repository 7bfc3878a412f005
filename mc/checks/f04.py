"""F04: frame selection and the energy detector."""
import itertools
import numpy as np
from mc.mfccref import Ref
from mc.checks.f01 import dense

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of masks, lengths and tolerances for the selector, and of all energy patterns, contexts and thresholds for the detector, on the real code'
BOUND = {
    'quick': 'selector: all masks of length 0..7 x 0..7 frames x tolerances 0..4; detector: all binary energy patterns of up to 8 frames x contexts 0..5 x proportions x thresholds on features, '
             'all loud and quiet segment patterns of up to 5 segments on signals x frame shapes, both edge modes, remainders; all call histories of up to 3 signals and reset; options from the command line',
    'thorough': 'selector: masks and frames up to 9; energy patterns of up to 11 frames x contexts 0..7; 7 segments'}
ASSUMPTIONS = ['frames whose energy lies within rounding of the threshold are not judged', 'without edge snipping the shift is at most the frame length', 'no dither except where the dither is reproduced from the length of the signal']
CHUNK = 2


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 8 if q else 10):
        yield dict(kind='select', n=n, N=7 if q else 9)
    for n in range(1, 9 if q else 12):
        yield dict(kind='pattern', n=n, C=5 if q else 7)
    for r in range(0, 4):
        for snip in (True, False):
            for fl, fs in ((8, 4), (8, 8), (7, 3), (4, 6)):
                if fs > fl and not snip:
                    continue
                yield dict(kind='wave', r=r, snip=snip, fl=fl, fs=fs, S=5 if q else 7)
    for snip in (True, False):
        yield dict(kind='history', snip=snip, depth=3 if q else 4)
    for n in (1, 2, 4, 8):
        yield dict(kind='exact', n=n)
    yield dict(kind='args')


def run_case(ck, c):
    {'select': select, 'pattern': pattern, 'wave': wave, 'history': history, 'exact': exact_energies, 'args': args}[c['kind']](ck, c)
    ck.trace()


def select(ck, c):
    from hyperion.feats.frame_selector import FrameSelector
    n, N = c['n'], c['N']
    x0 = np.arange(1, 2 * n + 1, dtype='float32').reshape(n, 2)
    for tol in range(0, 5):
        fs = FrameSelector(tol)
        for m in range(0, N + 1):
            for bits in itertools.product((False, True), repeat=m):
                sel = np.array(bits, dtype=bool)
                x, s = x0.copy(), sel.copy()
                what = '%d frames, mask %s, tolerance %d' % (n, bits, tol)
                ck.step()
                if abs(n - m) > tol:
                    ck.raises(lambda: fs.select(x, s), what)
                else:
                    y = fs.select(x, s)
                    want = [i for i in range(min(n, m)) if bits[i]]
                    ck.eq(y.shape, (len(want), 2), what + ': shape')
                    ck.eq(y.tolist(), x0[want].tolist(), what)
                ck.check(np.array_equal(x, x0) and np.array_equal(s, sel), what + ': inputs changed')
                ck.state((n, tol, bits))


def decide(loge, thr, scale, context, prop, exact=False):
    """The definition, and for which frames it is not decided by rounding."""
    loge = np.asarray(loge, dtype='float64')
    e = thr + scale * loge.mean()
    above = loge > e
    sure = np.abs(loge - e) > (-1 if exact else 1e-3)
    n = len(loge)
    if context == 0:
        return above, sure
    out, ok = np.zeros(n, dtype=bool), np.zeros(n, dtype=bool)
    for i in range(n):
        a, b = max(0, i - context), min(n, i + context + 1)
        f = sum(above[a:b]) / (b - a)
        out[i] = f > prop
        ok[i] = sure[a:b].all() and abs(f - prop) > 1e-6
    return out, ok


def judge(ck, got, loge, args, what):
    want, ok = decide(loge, *args)
    got = np.asarray(got)
    ck.eq(got.shape, want.shape, what + ': shape')
    ck.check(got.dtype == bool, what + ': not a mask but %s' % got.dtype)
    if not np.array_equal(got[ok], want[ok]):
        ck.fail('%s: got %s, want %s (decided: %s; energies %s)' % (what, got.astype(int), want.astype(int), ok.astype(int), np.round(loge, 3)))
    return want


def pattern(ck, c):
    from hyperion.feats.energy_vad import EnergyVAD
    n = c['n']
    for context, prop in itertools.product(range(c['C'] + 1), (0.01, 0.35, 0.6, 0.71, 0.99)):
        for thr, scale in ((5, 0), (0, 1.0), (2, 0.5), (-30, 0), (30, 0)):
            if abs(thr) == 30 and prop != 0.6:
                continue
            v = EnergyVAD(vad_energy_threshold=thr, vad_energy_mean_scale=scale, vad_frames_context=context, vad_proportion_threshold=prop)
            for bits in itertools.product((0, 1), repeat=n):
                e = np.array([(9.1 if b else 1.3) + 0.07 * i for i, b in enumerate(bits)], dtype='float32')
                x = np.stack([e, -e], axis=1)
                x0 = x.copy()
                what = 'energies %s, threshold %g + %g mean, context %d, proportion %g' % (bits, thr, scale, context, prop)
                y = v.compute(x)
                w = judge(ck, y, e, (thr, scale, context, prop), what)
                y2, le = v.compute(x, return_loge=True)
                ck.check(np.array_equal(y, y2) and np.array_equal(le, e), what + ': asking for the energies changes the result')
                ck.check(np.array_equal(x, x0), what + ': input changed')
                ck.step(2)
                ck.state((n, context, prop, thr, scale, bits, w))


def exact_energies(ck, c):
    """energies, means and thresholds without rounding: a frame at the threshold is not above it"""
    from hyperion.feats.energy_vad import EnergyVAD
    n = c['n']
    for context, prop in itertools.product(range(3), (0.1, 0.35, 0.6, 0.85)):
        for thr, scale in ((0, 1), (0, 0.5), (8, 0), (-4, 1), (4, 0.5), (16, 0)):
            v = EnergyVAD(vad_energy_threshold=thr, vad_energy_mean_scale=scale, vad_frames_context=context, vad_proportion_threshold=prop)
            for e in itertools.product((0., 8., 16.), repeat=n) if n < 8 else itertools.product((0., 16.), repeat=n):
                for dtype in ('float32', 'float64'):
                    x = np.stack([e, e], axis=1).astype(dtype)
                    judge(ck, v.compute(x), e, (thr, scale, context, prop, True), 'energies %s (%s), threshold %g + %g mean, context %d, proportion %g' % (e, dtype, thr, scale, context, prop))
                    ck.step()
                ck.state((n, e, context, prop, thr, scale))


def wave(ck, c):
    from hyperion.feats.energy_vad import EnergyVAD
    fl, sh, snip = c['fl'], c['fs'], c['snip']
    for S in range(1, c['S'] + 1):
        for bits in itertools.product((0, 1), repeat=S):
            amp = np.repeat([30.0 if b else 0.5 for b in bits], 9)
            n = len(amp) + c['r']
            amp = np.concatenate((amp, np.full(c['r'], amp[-1])))
            x = dense(n) * amp
            if (n - fl + sh) // sh < 1:
                continue
            if not snip and max((fl - sh) // 2, 0) >= n:
                continue
            for dither in (0, 0.01):
                r = Ref(fs=1000, frame_length=fl, frame_shift=sh, fft_length=16, dither=dither, snip_edges=snip, preemph_coeff=0, low_freq=20, num_filters=3)
                loge = np.array([np.log(np.sum(f ** 2) + 1e-15) for f in r.signal(x)[1]])
                for thr, scale, context, prop in ((2, 0.5, 0, 0.6), (5, 0, 1, 0.6), (0, 1, 2, 0.35), (4, 0.1, 4, 0.5)):
                    v = EnergyVAD(fs=1000, frame_length=fl, frame_shift=sh, dither=dither, snip_edges=snip,
                                  vad_energy_threshold=thr, vad_energy_mean_scale=scale, vad_frames_context=context, vad_proportion_threshold=prop)
                    x0 = x.copy()
                    y, e = v.compute(x, return_loge=True)
                    what = 'signal %s + %d, frames %d/%d, snip %s, dither %g, threshold %g + %g mean, context %d, proportion %g' % (bits, c['r'], fl, sh, snip, dither, thr, scale, context, prop)
                    ck.close(e, loge, what + ': log energy', rtol=1e-3, atol=1e-3)
                    judge(ck, y, loge, (thr, scale, context, prop), what)
                    ck.check(np.array_equal(x, x0), what + ': input changed')
                    ck.step()
                    ck.state((bits, c, dither, thr, y))


def history(ck, c):
    from hyperion.feats.energy_vad import EnergyVAD
    xs = [dense(33, 0) * np.repeat([20, 0.3, 40], 11), dense(26, 1) * np.repeat([0.3, 30], 13), dense(21, 2) * 3]
    kw = dict(fs=1000, frame_length=8, frame_shift=4, dither=0, snip_edges=c['snip'], vad_frames_context=1)
    alone = [EnergyVAD(**kw).compute(x, return_loge=True) for x in xs]
    v, w = EnergyVAD(**kw), EnergyVAD(**kw)
    for h in itertools.product(range(4), repeat=c['depth']):
        v.reset()
        w.reset()
        fresh = True
        for i, op in enumerate(h):
            if op == 3:
                v.reset()
                fresh = True
                continue
            y, e = v.compute(xs[op], return_loge=True)
            w.compute(xs[(op + i) % 3])
            if fresh:
                ck.check(np.array_equal(y, alone[op][0]) and np.array_equal(e, alone[op][1]), 'calls %s, call %d differs from the call on a new detector' % (h, i))
            ck.step()
            fresh = False
        ck.state((h, c['snip']))


def args(ck, c):
    from hyperion.feats.energy_vad import EnergyVAD
    from hyperion.feats.frame_selector import FrameSelector
    import argparse
    opts = [('sample-frequency', 'fs', 8000, 16000), ('frame-length', 'frame_length', 20, 25), ('frame-shift', 'frame_shift', 5, 10), ('dither', 'dither', 0.5, 1),
            ('snip-edges', 'snip_edges', False, True), ('vad-energy-mean-scale', 'vad_energy_mean_scale', 0.25, 0.5), ('vad-energy-threshold', 'vad_energy_threshold', 2.5, 5),
            ('vad-frames-context', 'vad_frames_context', 3, 0), ('vad-proportion-threshold', 'vad_proportion_threshold', 0.3, 0.6)]
    for pre in (None, 'vad'):
        p = '--' if pre is None else '--%s-' % pre
        for on in itertools.product((0, 1), repeat=len(opts)):
            par = argparse.ArgumentParser()
            EnergyVAD.add_argparse_args(par, prefix=pre)
            a = ['%s%s=%s' % (p, o[0], str(o[2]).lower() if isinstance(o[2], bool) else o[2]) for o, b in zip(opts, on) if b]
            v = EnergyVAD(**EnergyVAD.filter_args(prefix=pre, **vars(par.parse_args(a))))
            ck.eq([getattr(v, o[1]) for o in opts], [o[2] if b else o[3] for o, b in zip(opts, on)], 'options %s' % a)
            ck.step()
            ck.state((pre, on))
        for t in (None, 0, 5):
            par = argparse.ArgumentParser()
            FrameSelector.add_argparse_args(par, prefix=pre)
            v = FrameSelector(**FrameSelector.filter_args(prefix=pre, **vars(par.parse_args([] if t is None else ['%stol-num-frames=%d' % (p, t)]))))
            ck.eq(v.tol_num_frames, 3 if t is None else t, 'tolerance option')
            ck.step()
