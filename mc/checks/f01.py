"""F01: acoustic features are the documented function of the samples."""
import itertools
import numpy as np
from mc.mfccref import Ref, bank, window, pow2

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of signal lengths, impulse positions and option combinations against a reference written from the definition'
BOUND = {
    'quick': '8 frame length/shift pairs x all signal lengths up to 3 frames + 3 x unit impulses at every position (a basis of the linear stages) x both edge modes x offset removal x pre-emphasis x 5 windows; all 5 output stages x 7 options over dense signals; all filter banks of 3 types x 4 transform sizes x 3 rates x band edges x 1-8 filters; windows of 1-24 samples; short-time transforms and their inverses',
    'thorough': 'signal lengths up to 5 frames, 12 frame length/shift pairs, pairs of impulses'}
ASSUMPTIONS = ['signals have at least one sample', 'the frame shift is not longer than the frame', 'every filter covers a transform bin and the band does not reach bin 0',
               'bin j of the kaldi-style bank has frequency j fs/(N-1), as implemented', 'the DC filter and pre-emphasis run over the whole signal, as implemented']

PAIRS = [(8, 4), (8, 8), (5, 2), (6, 3), (9, 4), (4, 4), (7, 5), (8, 3)]
MORE = [(10, 3), (16, 8), (3, 1), (12, 9)]
STEPS = ('fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum')
CHUNK = 2


def cases(tier):
    ps = PAIRS + (MORE if tier == 'thorough' else [])
    for L, S in ps:
        for w in ('povey', 'hamming', 'hanning', 'blackman', 'rectangular'):
            for snip in (True, False):
                yield dict(kind='impulse', L=L, S=S, w=w, snip=snip)
    for step in STEPS:
        for fb in ('mel_kaldi', 'mel_etsi', 'linear'):
            for snip in (True, False):
                for pi in range(4 if tier == 'quick' else len(ps)):
                    yield dict(kind='options', step=step, fb=fb, snip=snip, pi=pi)
    for fb in ('mel_kaldi', 'mel_etsi', 'linear'):
        for fft in (8, 16, 32, 64):
            yield dict(kind='bank', fb=fb, fft=fft)
    yield dict(kind='window')
    for L, S in ps:
        yield dict(kind='stft', L=L, S=S)
    yield dict(kind='args')


def mk(**kw):
    from hyperion.feats.mfcc import MFCC
    return MFCC(**kw)


def dense(T, k=0):
    """a signal without gaps or symmetry"""
    t = np.arange(T)
    return ((t * t * 7 + t * (13 + k) + 5) % 31 - 14.0 + 3 * k) * (10.0 + k)


def run_case(ck, c):
    kind = c['kind']
    if kind == 'impulse':
        L, S = c['L'], c['S']
        top = (3 if ck.tier == 'quick' else 5) * L + 3
        for dc, pre in itertools.product((False, True), (0, 0.97)):
            base = dict(fs=1000, frame_length=L, frame_shift=S, fft_length=8, remove_dc_offset=dc, preemph_coeff=pre, window_type=c['w'], dither=0, low_freq=60, num_filters=2,
                        num_ceps=2, snip_edges=c['snip'], use_energy=False, output_step='fft')
            m = mk(**base)
            ref = Ref(**base)
            for T in range(1, top + 1):
                for p in list(range(T)) + [None]:
                    x = np.zeros(T)
                    if p is None:
                        x = dense(T)
                    else:
                        x[p] = 1.0 + p
                    m.reset()
                    ref.reset()
                    y = m.compute(x)
                    ck.step()
                    want = ref.stages(x)['fft']
                    what = lambda: 'length %d shift %d, %d samples, %s, snip %s, dc %s, preemphasis %s' % (L, S, T, 'impulse at %s' % p, c['snip'], dc, pre)
                    ck.eq(y.shape, want.shape, 'shape of frames: ' + what())
                    if y.size and not np.allclose(y, want, rtol=2e-5, atol=2e-5 * np.abs(x).max()):
                        ck.fail('spectrum of frames: %s: got %s, want %s' % (what(), y, want))
                ck.state((L, S, T, c['w'], c['snip'], dc, pre, y.shape))
        ck.trace()
    elif kind == 'options':
        options(ck, c)
        ck.trace()
    elif kind == 'bank':
        banks(ck, c['fb'], c['fft'])
        ck.trace()
    elif kind == 'window':
        from hyperion.feats.feature_windows import FeatureWindowFactory as W
        for n in range(1, 25):
            for w in ('povey', 'hamming', 'hanning', 'blackman', 'rectangular'):
                if n == 1 and w != 'rectangular':
                    continue
                ck.close(W.create(w, n), window(w, n), '%s window of %d' % (w, n), rtol=1e-6, atol=1e-7)
                ck.step()
                ck.state((w, n))
        ck.raises(lambda: W.create('none', 8), 'a window that does not exist')
        ck.trace()
    elif kind == 'stft':
        stft(ck, c['L'], c['S'])
        ck.trace()
    else:
        args(ck)
        ck.trace()


def options(ck, c):
    L, S = (PAIRS + MORE)[c['pi']]
    for ue, raw, f2, norm, dith, fl in itertools.product((True, False), (True, False), (True, False), (True, False), (0, 1.0), (0, 1e4)):
        for nc, lift, hi, dc in ((3, 22, 0, True), (2, 0, -50, False), (1, 4, 400, True)):
            if c['step'] != 'cepstrum' and nc == 1:
                continue
            if not ue and (fl or not raw):
                continue
            base = dict(fs=1000, frame_length=L, frame_shift=S, fft_length=16, remove_dc_offset=dc, preemph_coeff=0.97 if norm else 0, window_type='hamming', dither=dith,
                        fb_type=c['fb'], low_freq=60, high_freq=hi, num_filters=3, norm_filters=norm, num_ceps=nc, snip_edges=c['snip'], energy_floor=fl, raw_energy=raw,
                        use_energy=ue, use_fft2=f2, cepstral_lifter=lift, output_step=c['step'])
            m = mk(**base)
            ref = Ref(**base)
            for T in (0, L - S - 1, L - 1, L, L + S - 1, L + S, 3 * L + 1):
                if T < 1:
                    continue
                x = dense(T, nc)
                keep = x.copy()
                m.reset()
                ref.reset()
                rf = dict(return_fft=True)
                if c['step'] != 'fft':
                    rf['return_fft_mag'] = True
                if c['step'] in ('logfb', 'cepstrum'):
                    rf['return_logfb'] = True
                y = m.compute(x)
                m.reset()
                out = m.compute(x, **rf)
                ck.step()
                ck.check(np.array_equal(x, keep), 'the signal was changed')
                st = ref.stages(x)
                want = st[c['step']]
                what = '%s of %d samples, %s' % (c['step'], T, base)
                ck.eq(y.shape, want.shape, 'shape of ' + what)
                sc = np.abs(ref.raw['fft']).max() if len(want) else 1.0
                cmp_(ck, y, want, what, sc)
                ck.check(np.array_equal(np.asarray(out[0]), np.asarray(y)), lambda: what + ': with further outputs')
                ck.eq(len(out), 1 + len(rf), what + ': further outputs')
                for nm, o in zip(('fft', 'fft_mag', 'logfb'), out[1:]):
                    w = ref.raw[nm]
                    a = 1 if ue and nm == c['step'] or nm != 'logfb' and ue else 0
                    if nm == 'logfb' and ue and c['step'] == 'logfb':
                        a = 0
                    cmp_(ck, np.asarray(o)[:, a:], w[:, a:], what + ': further output ' + nm, sc)
            ck.state((c['step'], c['fb'], c['snip'], c['pi'], ue, raw, f2, norm, dith, fl, nc))
    ck.sample('options %s' % c)


def cmp_(ck, y, want, what, sc):
    if not y.size:
        return
    if np.iscomplexobj(want) or 'log' not in what.split(' ')[0] and 'cep' not in what.split(' ')[0]:
        tol = dict(rtol=1e-3, atol=2e-5 * max(sc, sc ** 2 if not np.iscomplexobj(want) else 0, 1))
    else:
        tol = dict(rtol=2e-3, atol=5e-3)
    if not np.allclose(y, want, **tol):
        ck.fail('%s: got %s, want %s' % (what, y, want))


def banks(ck, fb, fft):
    from hyperion.feats.filter_banks import FilterBankFactory as B
    for fs in (1000, 8000, 16000):
        for low in (0, 20, fs / 50.0, fs / 10.0):
            for high in (0, fs / 2, fs / 4, -fs / 20.0):
                for nf in range(1, 9):
                    for norm in (False, True):
                        want = bank(fb, nf, fft, fs, low, high)
                        if norm:
                            if np.any(want.sum(axis=0) == 0):
                                continue
                            want = want / want.sum(axis=0)
                        got = B.create(fb, nf, fft, fs, low, high, norm)
                        ck.step()
                        what = '%s bank of %d filters, transform %d, rate %d, band %s-%s, norm %s' % (fb, nf, fft, fs, low, high, norm)
                        ck.eq(got.shape, (fft // 2 + 1, nf), 'shape of ' + what)
                        ck.close(got, want, what, rtol=1e-4, atol=1e-5)
                        # contract: weights in 0..1, rising then falling, inside the band up to one bin
                        top = high if high > 0 else fs / 2 + high
                        f = np.arange(fft // 2 + 1) * float(fs) / fft
                        bw = float(fs) / fft
                        ck.check(np.all(got >= 0) and np.all(got <= 1 + 1e-6), what + ': weights between 0 and 1')
                        for k in range(nf):
                            on = np.nonzero(got[:, k])[0]
                            if len(on):
                                ck.check(f[on[0]] >= low - bw and f[on[-1]] <= top + bw, what + ': filter %d leaves the band' % k)
                                p = int(np.argmax(got[:, k]))
                                ck.check(np.all(np.diff(got[:p + 1, k]) >= 0) and np.all(np.diff(got[p:, k]) <= 0), what + ': filter %d is not a triangle' % k)
                        ck.state((fb, fft, fs, low, high, nf, norm))
    ck.raises(lambda: B.create('none', 3, 16, 1000, 0, 0, False), 'a bank that does not exist')
    x = np.arange(0, 8000, 37.0)
    ck.close(B.mel2lin(B.lin2mel(x)), x, 'mel and back', rtol=1e-9, atol=1e-6)
    ck.close(B.lin2mel(x), 2595 * np.log10(1 + x / 700), 'mel scale', rtol=1e-3, atol=1)


def stft(ck, L, S):
    import hyperion.feats as M
    N = pow2(L, 8)
    k = np.arange(N)[:, None]
    E = np.exp(-2j * np.pi * k * np.arange(L)[None, :] / N)
    for w in (None, window('hamming', L), window('povey', L)):
        ww = np.ones(L) if w is None else w
        for T in range(0, 3 * L + 2):
            x = dense(T, 1)
            nf = max(0, (T - L + S) // S)
            want = np.array([E.dot(x[i * S:i * S + L] * ww) for i in range(nf)]).reshape(nf, N)
            A = M.stft(x, L, S, N, w)
            R = M.strft(x, L, S, N, w)
            ck.step()
            ck.eq(A.shape, (nf, N), 'shape of the transform')
            ck.eq(R.shape, (nf, N // 2 + 1), 'shape of the half transform')
            sc = max(1.0, np.abs(want).max() if nf else 1)
            ck.close(A, want, 'transform of %d samples' % T, rtol=1e-4, atol=1e-5 * sc)
            ck.close(R, want[:, :N // 2 + 1], 'half transform of %d samples' % T, rtol=1e-4, atol=1e-5 * sc)
            e = M.st_logE(x, L, S)
            ck.close(e, [np.log(np.sum(x[i * S:i * S + L] ** 2) + 1e-15) for i in range(nf)], 'energies of %d samples' % T, rtol=1e-5, atol=1e-5)
            if nf:
                n = (nf - 1) * S + L
                wsum = np.zeros(n)
                for i in range(nf):
                    wsum[i * S:i * S + L] += ww
                for y, nm in ((M.istft(A, L, S, w), 'inverse'), (M.istrft(R, L, S, w), 'half inverse')):
                    ck.eq(len(y), n, 'samples of the %s' % nm)
                    ok = wsum > 0.05
                    ck.close(np.real(y)[ok], x[:n][ok], '%s of %d samples' % (nm, T), rtol=1e-3, atol=1e-3 * sc)
            ck.state((L, S, T, w is None, nf))


def args(ck):
    import argparse
    from hyperion.feats.mfcc import MFCC
    opts = [('sample-frequency', 'fs', '8000', 8000), ('frame-length', 'frame_length', '32', 32), ('frame-shift', 'frame_shift', '16', 16), ('fft-length', 'fft_length', '1024', 1024),
            ('remove-dc-offset', 'remove_dc_offset', 'no', False), ('preemphasis-coeff', 'preemph_coeff', '0.5', 0.5), ('window-type', 'window_type', 'hamming', 'hamming'),
            ('use-fft2', 'use_fft2', 'f', False), ('dither', 'dither', '0', 0.0), ('fb-type', 'fb_type', 'linear', 'linear'), ('low-freq', 'low_freq', '100', 100.0), ('high-freq', 'high_freq', '-300', -300.0),
            ('num-filters', 'num_filters', '20', 20), ('norm-filters', 'norm_filters', 'true', True), ('num-ceps', 'num_ceps', '7', 7), ('snip-edges', 'snip_edges', 'false', False),
            ('energy-floor', 'energy_floor', '0.5', 0.5), ('raw-energy', 'raw_energy', 'no', False), ('use-energy', 'use_energy', 'no', False), ('cepstral-lifter', 'cepstral_lifter', '0', 0.0),
            ('input-step', 'input_step', 'fft', 'fft'), ('output-step', 'output_step', 'logfb', 'logfb')]
    dflt = vars(MFCC())
    for pre in (None, 'mfcc'):
        for k in range(len(opts) + 2):
            use = opts if k == len(opts) else [] if k > len(opts) else [opts[k]]
            ap = argparse.ArgumentParser()
            MFCC.add_argparse_args(ap, prefix=pre)
            av = ['--%s%s=%s' % (pre + '-' if pre else '', o[0], o[2]) for o in use]
            m = MFCC(**MFCC.filter_args(prefix=pre, **vars(ap.parse_args(av))))
            ck.step()
            got = vars(m)
            for o in opts:
                ck.eq(got[o[1]], o[3] if o in use else dflt[o[1]], 'option %s with %s' % (o[1], av))
            ck.state(('args', pre, k))
