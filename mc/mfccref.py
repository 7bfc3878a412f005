"""Reference of the acoustic feature pipeline, from its definition, in double precision."""
import numpy as np

PI = np.pi


def pow2(length, fft):
    if length > fft:
        k = 1
        while k < length:
            k *= 2
        return k
    return fft


def window(kind, n):
    a = 2 * PI * np.arange(n) / n
    return {'povey': lambda: (0.5 - 0.5 * np.cos(a)) ** 0.85, 'hamming': lambda: 0.54 - 0.46 * np.cos(a), 'hanning': lambda: 0.5 - 0.5 * np.cos(a),
            'blackman': lambda: 0.42 - 0.5 * np.cos(a) + 0.08 * np.cos(2 * a), 'rectangular': lambda: np.ones(n)}[kind]()


def mel(f):
    return 1127.0 * np.log(1 + f / 700.0)


def imel(m):
    return 700.0 * (np.exp(m / 1127.0) - 1)


def bank(kind, nf, fft, fs, low, high, norm=False):
    if high <= 0:
        high = fs / 2.0 + high
    B = np.zeros((fft // 2 + 1, nf))
    if kind == 'mel_kaldi':
        c = np.linspace(mel(low), mel(high), nf + 2)
        for j in range(fft // 2):
            m = mel(j * float(fs) / (fft - 1))
            for k in range(nf):
                B[j, k] = max(0.0, min((m - c[k]) / (c[k + 1] - c[k]), (c[k + 2] - m) / (c[k + 2] - c[k + 1])))
    else:
        c = imel(np.linspace(mel(low), mel(high), nf + 2)) if kind == 'mel_etsi' else np.linspace(low, high, nf + 2)
        b = [int(np.round(x / fs * fft)) for x in c]
        for k in range(nf):
            l, m, r = b[k:k + 3]
            for j in range(l, m + 1):
                B[j, k] = (j - l + 1.0) / (m - l + 1)
            for j in range(m + 1, r + 1):
                B[j, k] = (r - j + 1.0) / (r - m + 1)
    if norm:
        B = B / B.sum(axis=0, keepdims=True)
    return B


class Ref(object):
    def __init__(self, fs=16000, frame_length=25, frame_shift=10, fft_length=512, remove_dc_offset=True, preemph_coeff=0.97, window_type='povey',
                 use_fft2=True, dither=1, fb_type='mel_kaldi', low_freq=20, high_freq=0, num_filters=23, norm_filters=False, num_ceps=13, snip_edges=True,
                 energy_floor=0, raw_energy=True, use_energy=True, cepstral_lifter=22, input_step='wave', output_step='cepstrum'):
        self.__dict__.update(locals())
        self.L = frame_length * fs // 1000
        self.S = frame_shift * fs // 1000
        self.N = pow2(self.L, fft_length)
        self.reset()

    def reset(self):
        self.px = self.py = self.pe = 0.0

    def signal(self, x):
        """framing, dither and the two filters over the signal; (frames, raw frames)"""
        x = np.asarray(x, dtype=float)
        if self.snip_edges:
            nf = max(0, (len(x) - self.L + self.S) // self.S)
        else:
            nf = int(np.round(len(x) / float(self.S)))
            a = (self.L - self.S) // 2
            b = max(0, (nf - 1) * self.S + self.L - len(x) - a)
            idx = np.arange(-a, len(x) + b)
            p = 2 * (len(x) - 1)
            idx = np.zeros(len(idx), dtype=int) if p == 0 else np.abs((idx + len(x) - 1) % p - (len(x) - 1))
            x = x[idx]
        if self.dither > 0:
            x = x + self.dither * np.random.RandomState(seed=len(x)).randn(len(x))
        if self.remove_dc_offset:
            y = np.zeros(len(x))
            for t in range(len(x)):
                self.py = y[t] = x[t] - self.px + 0.999 * self.py
                self.px = x[t]
            x = y
        raw = [x[i * self.S:i * self.S + self.L] for i in range(nf)]
        if self.preemph_coeff > 0:
            y = x - self.preemph_coeff * np.concatenate(([self.pe], x[:-1]))
            if len(x):
                self.pe = x[-1]
            x = y
        return [x[i * self.S:i * self.S + self.L] for i in range(nf)], raw

    def stages(self, x):
        """all stages from the signal"""
        fr, raw = self.signal(x)
        w = window(self.window_type, self.L)
        k = np.arange(self.N // 2 + 1)[:, None]
        E = np.exp(-2j * PI * k * np.arange(self.L)[None, :] / self.N)
        X = np.array([E.dot(f * w) for f in fr]).reshape(len(fr), self.N // 2 + 1)
        F = np.abs(X)
        if self.raw_energy:
            e = np.array([np.log(np.sum(r ** 2) + 1e-15) for r in raw])
        else:
            e = np.log(np.mean(F ** 2, axis=1) + 1e-10)
        e = np.maximum(e, np.log(self.energy_floor + 1e-15))
        if self.use_fft2:
            F = F ** 2
        B = np.log(F.dot(bank(self.fb_type, self.num_filters, self.N, self.fs, self.low_freq, self.high_freq, self.norm_filters)) + 1e-10)
        n = np.arange(self.num_filters)
        q = np.arange(self.num_filters)[:, None]
        D = np.sqrt(2.0 / self.num_filters) * np.cos(PI * q * (2 * n + 1) / (2.0 * self.num_filters))
        D[0] /= np.sqrt(2)
        P = B.dot(D.T)[:, :self.num_ceps]
        if self.cepstral_lifter > 0:
            P = P * (1 + 0.5 * self.cepstral_lifter * np.sin(PI * np.arange(P.shape[1]) / self.cepstral_lifter))
        self.raw = dict(fft=X, fft_mag=F, logfb=B)
        out = dict(fft=X, fft_mag=F, log_spec=np.log(F + 1e-10), logfb=B, cepstrum=P)
        out = {k: v.copy() for k, v in out.items()}
        if self.use_energy:
            for k in ('fft', 'fft_mag', 'log_spec', 'cepstrum'):
                out[k][:, 0] = e
            out['logfb'] = np.hstack((e[:, None], B))
        return out
