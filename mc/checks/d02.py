"""D02: the launcher of programs on GPUs."""
import itertools
import os
import shutil
import subprocess
import tempfile
from mc.datadir import REPO, _demote

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the states of a small machine (GPUs, processes on them, requests, environments) on the real shell programs, with stand-ins for the tools of the system, against a set model'
BOUND = {
    'quick': 'machines of 0-4 GPUs x every subset of them in use x 1-2 processes on each x every request of 1 to one more than there are; launcher: GPUs asked for (none, 0-3) x machines of 0-2 GPUs x every subset in use x place of the finder (on the path, beside the launcher, nowhere) x kinds of conda x environment named or not x 4 argument lists x 3 exit codes',
    'thorough': 'machines of up to 6 GPUs, up to 3 processes on each; launcher on machines of up to 3 GPUs'}
ASSUMPTIONS = ['the listing of devices has one line for each GPU apart from its audio device', 'the table of processes has the layout of the documentation of nvidia-smi', 'a program that cannot get its GPUs may run without any, or not run']
CHUNK = 1

ARGS = (['prog.py'], ['prog.py', '--a', 'two words', ''], ['-u', 'prog.py', '*', '$HOME', 'a"b', "c'd"], ['prog.py', '--num-gpus', '7'])


def cases(tier):
    q = tier == 'quick'
    for n in range(5 if q else 7):
        for k in range(n + 1):
            yield dict(kind='free', n=n, k=k, procs=2 if q else 3)
    yield dict(kind='usage')
    for n in range(3 if q else 4):
        for where in ('path', 'beside', 'nowhere'):
            for conda in ('none', 'old', 'new'):
                yield dict(kind='launch', n=n, where=where, conda=conda)


STUBS = {
    'lspci': 'cat $VF_TOP/data/lspci\n',
    'nvidia-smi': 'cat $VF_TOP/data/smi\n',
    'python': '{ printf "%s\\0" "RUN" "cuda=${CUDA_VISIBLE_DEVICES-unset}" "env=${VF_ENV-}" "mark=${VF_MARK-}" "$#" "$@"; } >> $VF_TOP/data/out\nexit ${VF_RC:-0}\n',
}


class Machine(object):
    def __init__(self):
        self.top = tempfile.mkdtemp(prefix='vfgpu_', dir='/tmp')
        os.chmod(self.top, 0o755)
        shutil.copytree(REPO + '/hyp_utils', self.top + '/hyp_utils')
        os.mkdir(self.top + '/bin')
        os.mkdir(self.top + '/data')
        for k, v in STUBS.items():
            self.script('bin/' + k, v)
        if os.geteuid() == 0:
            os.chown(self.top + '/data', 65534, 65534)

    def script(self, name, text):
        p = os.path.join(self.top, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write('#!/bin/bash\n' + text)
        os.chmod(p, 0o755)

    def put(self, name, text):
        p = os.path.join(self.top, 'data', name)
        with open(p, 'w') as f:
            f.write(text)
        os.chmod(p, 0o644)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.top, ignore_errors=True)

    def run(self, *args, **env):
        e = {'PATH': self.top + '/bin:/usr/bin:/bin', 'HOME': self.top + '/data', 'VF_TOP': self.top}
        for k, v in env.items():
            e[k] = v
        r = subprocess.run(list(args), cwd=self.top, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_demote, timeout=60)
        self.err = r.stderr.decode(errors='replace')
        return r.returncode, r.stdout.decode(errors='replace')

    def state(self, n, procs, audio=True):
        """procs: GPU of each process"""
        l = '00:00.0 Host bridge: Intel Corporation Device (rev 02)\n00:02.0 VGA compatible controller: ASPEED Technology\n'
        for g in range(n):
            l += '%02x:00.0 %s controller: NVIDIA Corporation GP102 [GeForce GTX 1080 Ti] (rev a1)\n' % (4 + g, ('VGA compatible', '3D')[g % 2])
            if audio:
                l += '%02x:00.1 Audio device: NVIDIA Corporation GP102 HDMI Audio Controller (rev a1)\n' % (4 + g)
        self.put('lspci', l)
        bar = '+' + '-' * 77 + '+\n'
        s = 'Sat Jan  5 12:00:00 2019\n' + bar + '| NVIDIA-SMI 410.79       Driver Version: 410.79       CUDA Version: 10.0     |\n|' + '=' * 77 + '|\n'
        for g in range(n):
            s += '|   %d  GeForce GTX 108...  Off  | 00000000:%02X:00.0 Off |                  N/A |\n' % (g, 4 + g) + bar
        s += '\n' + bar + '| Processes:                                                       GPU Memory |\n|  GPU       PID   Type   Process name                             Usage      |\n|' + '=' * 77 + '|\n'
        for i, g in enumerate(procs):
            s += '|    %d     %5d      C   python                                      %5dMiB |\n' % (g, 1000 + 7 * i, 100 + i)
        if not procs:
            s += '|  No running processes found                                                 |\n'
        self.put('smi', s + bar)


def run_case(ck, c):
    with Machine() as m:
        globals()[c['kind']](ck, m, c)
    ck.trace()


def free(ck, m, c):
    n = c['n']
    for busy in itertools.combinations(range(n), c['k']):
        for rep in range(1, c['procs'] + 1):
            procs = [g for g in busy for _ in range(rep)]
            if rep == 2:
                procs.sort(key=lambda g: -g)
            m.state(n, procs, audio=rep == 1)
            left = set(range(n)) - set(busy)
            for r in [None] + list(range(1, n + 2)):
                rc, out = m.run('hyp_utils/free-gpu', *([] if r is None else ['-n', str(r)]))
                k = r or 1
                what = 'asking %s GPUs of %d with processes on %s' % (r, n, procs)
                ck.step()
                ck.state((n, busy, r))
                if k > len(left):
                    ck.eq((rc != 0, out.strip()), (True, '-1'), what)
                else:
                    ck.eq(rc, 0, what + ': exit status')
                    got = out.strip().split(',')
                    ck.check(len(got) == k == len(set(got)) and set(got) <= set(map(str, left)), what + ': got %r' % out)


def usage(ck, m, c):
    m.state(1, [])
    rc, out = m.run('hyp_utils/free-gpu', '-n')
    ck.check(rc != 0 and out.strip() in ('', '-1'), 'a request without a number: %r %r' % (rc, out))
    m.script('bin/conda', 'exit 1\n')
    shutil.copy(m.top + '/hyp_utils/free-gpu', m.top + '/bin/free-gpu')
    for a in ([], ['--num-gpus', '1']):
        m.run('hyp_utils/torch.sh', *a)
        ck.check(not os.path.exists(m.top + '/data/out'), 'a program ran without being named')


def records(m):
    """runs of the program: (cuda, env, mark, args)"""
    p = m.top + '/data/out'
    if not os.path.exists(p):
        return []
    t = open(p).read().split('\0')[:-1]
    os.unlink(p)
    out = []
    i = 0
    while i < len(t):
        n = int(t[i + 4])
        out.append((t[i + 1][5:], t[i + 2][4:], t[i + 3][5:], t[i + 5:i + 5 + n]))
        i += 5 + n
    return out


def launch(ck, m, c):
    n = c['n']
    if c['where'] == 'path':
        shutil.move(m.top + '/hyp_utils/free-gpu', m.top + '/bin/free-gpu')
    elif c['where'] == 'nowhere':
        os.unlink(m.top + '/hyp_utils/free-gpu')
    if c['conda'] != 'none':
        m.script('bin/conda', '[ "$1" = info ] && echo $VF_TOP/conda\n' + ('[ "$1" = info ]' if c['conda'] == 'new' else ''))
        os.mkdir(m.top + '/conda')
        if c['conda'] == 'old':
            m.script('bin/activate', 'export VF_ENV=$1\n')
            m.script('bin/deactivate', 'unset VF_ENV\n')
        else:
            m.script('conda/etc/profile.d/conda.sh', 'conda() {\n case "$1" in\n activate) export VF_ENV=$2 ;;\n deactivate) unset VF_ENV ;;\n *) command conda "$@" ;;\n esac\n}\n')
    i = 0
    for busy in [b for k in range(n + 1) for b in itertools.combinations(range(n), k)]:
        m.state(n, busy)
        left = set(map(str, set(range(n)) - set(busy)))
        for num in (None, 0, 1, 2, 3):
            for torch in ((None,) if c['conda'] == 'none' else (None, 'envA')):
                for ai, args in enumerate(ARGS):
                    i += 1
                    rcs = (0, 1, 3) if ai == 1 else ((0, 1, 3)[i % 3],)
                    for want in rcs:
                        one(ck, m, c, n, left, num, torch, args, want, i)


def one(ck, m, c, n, left, num, torch, args, want, i):
    env = {'VF_RC': str(want)}
    if torch:
        env['TORCH'] = torch
    prior = None
    if i % 2:
        env['CUDA_VISIBLE_DEVICES'] = prior = 'as before'
    p = m.top + '/path.sh'
    if i % 3 == 0:
        with open(p, 'w') as f:
            f.write('export VF_MARK=here\n')
        os.chmod(p, 0o644)
    elif os.path.exists(p):
        os.unlink(p)
    rc, out = m.run('hyp_utils/torch.sh', *(([] if num is None else ['--num-gpus', str(num)]) + args), **env)
    what = 'launching %r with %s GPUs of %d (free: %s), finder %s, conda %s, environment %s' % (args, num, n, sorted(left), c['where'], c['conda'], torch)
    ck.step()
    ck.state((n, tuple(sorted(left)), num, torch, tuple(args), want))
    runs = records(m)
    found = num and c['where'] != 'nowhere'
    if found and num > len(left):
        # no GPUs: the program runs without any, or does not run and says so
        if not runs:
            ck.check(rc != 0, what + ': did not run, but exit status 0')
            return
        ck.eq(runs[0][0], '-1', what + ': GPUs of the program')
    ck.eq(len(runs), 1, what + ': runs of the program (%s)' % m.err.strip()[-200:])
    cuda, e, mark, a = runs[0]
    ck.eq(a, args, what + ': arguments')
    ck.eq(e, torch or '', what + ': active environment')
    ck.eq(mark, 'here' if i % 3 == 0 else '', what + ': settings of path.sh')
    ck.eq(rc, want, what + ': exit status')
    if not found:
        ck.eq(cuda, prior or 'unset', what + ': GPUs of the program')
    elif num <= len(left):
        got = cuda.split(',')
        ck.check(len(got) == num == len(set(got)) and set(got) <= left, what + ': GPUs %r' % cuda)
