"""Data directories: stand-ins for the Kaldi tools that hyp_utils calls, and running a tool in a scratch directory as an unprivileged user."""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = '/repo'
UTILS = {
    'parse_options.sh': r'''
while true; do
  [ -z "${1:-}" ] && break
  case "$1" in
    --*=*) echo "$0: options are --name value" 1>&2; exit 1 ;;
    --*) name=$(echo "$1" | sed -e 's/^--//' -e 's/-/_/g')
      eval '[ -z "${'$name'+xxx}" ]' && echo "$0: invalid option $1" 1>&2 && exit 1
      oldval="$(eval echo \$$name)"
      eval $name=\"$2\"
      if [ "$oldval" == "true" ] || [ "$oldval" == "false" ]; then
        [[ "$2" != "true" && "$2" != "false" ]] && echo "$0: expected true or false: $1 $2" 1>&2 && exit 1
      fi
      shift 2 ;;
    *) break ;;
  esac
done
true
''',
    'filter_scp.pl': r'''#!/usr/bin/perl
$exclude = 0; $field = 1;
while (@ARGV && $ARGV[0] =~ /^-./) {
  $a = shift @ARGV;
  if ($a eq "--exclude") { $exclude = 1; } elsif ($a eq "-f") { $field = shift @ARGV; } else { die "bad option $a"; }
}
@ARGV == 1 || @ARGV == 2 || die "usage: filter_scp.pl id_list [in]";
$l = shift @ARGV;
if ($l eq "-") { *F = *STDIN; } else { open(F, "<", $l) || die "cannot open $l"; }
while (<F>) { @A = split; @A >= 1 || die "invalid id-list line"; $seen{$A[0]} = 1; }
while (<>) {
  @A = split; @A > 0 || die "invalid scp line"; @A >= $field || die "invalid scp line";
  print if ((defined $seen{$A[$field-1]}) ne ($exclude ? 1 : ""));
}
''',
    'utt2spk_to_spk2utt.pl': r'''#!/usr/bin/perl
while (<>) {
  @A = split; @A == 2 || die "invalid line in utt2spk: $_";
  if (!$h{$A[1]}) { $h{$A[1]} = []; push @s, $A[1]; }
  push @{$h{$A[1]}}, $A[0];
}
foreach $s (@s) { print "$s ", join(" ", @{$h{$s}}), "\n"; }
''',
    'spk2utt_to_utt2spk.pl': r'''#!/usr/bin/perl
while (<>) {
  @A = split; @A > 1 || die "invalid line in spk2utt: $_";
  $s = shift @A; foreach $u (@A) { print "$u $s\n"; }
}
''',
    'subset_scp.pl': r'''#!/usr/bin/perl
$first = $last = 0;
if ($ARGV[0] eq "--first") { $first = 1; shift @ARGV; } elsif ($ARGV[0] eq "--last") { $last = 1; shift @ARGV; }
$N = shift @ARGV; @L = <>; $T = @L; $T >= $N || die "too few lines";
for ($i = 0; $i < $N; $i++) { print $first ? $L[$i] : $last ? $L[$T - $N + $i] : $L[int($i * $T / $N)]; }
''',
    # the order is chosen from outside: all orders are explored
    'shuffle_list.pl': r'''#!/usr/bin/perl
@L = <STDIN>; foreach $i (split(/,/, $ENV{"VF_ORDER"})) { print $L[$i] if $i < @L; }
''',
    'data/get_segments_for_data.sh': r'''#!/bin/bash
awk '{print $1, $1, 0, $2}' $1/utt2dur
''',
    # the rows of a record stand in the scp file itself
    'feat-to-len': r'''#!/bin/bash
awk '{split($2,a,":"); print $1, a[2]}' ${1#scp:} > ${2#ark,t:}
''',
    'run.pl': r'''#!/usr/bin/perl
($r, $log, @c) = @ARGV; $r =~ /^JOB=(\d+):(\d+)$/ || die;
for $j ($1 .. $2) { @d = map { s/JOB/$j/gr } @c; system(@d) == 0 || exit 1; }
''',
    'fix_data_dir.sh': None,
}


def _demote():
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


class Box(object):
    """a scratch directory of an unprivileged user, with utils/ (stand-ins) and hyp_utils/ (of the repository)"""

    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix='vfdata_', dir='/tmp')
        u = os.path.join(self.top, 'utils')
        os.makedirs(os.path.join(u, 'data'))
        for n, s in UTILS.items():
            if s is not None:
                with open(os.path.join(u, n), 'w') as f:
                    f.write(s.lstrip('\n'))
                os.chmod(os.path.join(u, n), 0o755)
        shutil.copytree(REPO + '/hyp_utils', os.path.join(self.top, 'hyp_utils'))
        shutil.copy(os.path.join(self.top, 'hyp_utils', 'fix_data_dir.sh'), u)
        with open(os.path.join(u, 'python'), 'w') as f:
            f.write('#!/bin/sh\nexec %s -W ignore "$@"\n' % sys.executable)
        os.chmod(os.path.join(u, 'python'), 0o755)
        open(os.path.join(self.top, 'path.sh'), 'w').close()
        w = os.path.join(self.top, 'data')
        os.mkdir(w)
        os.chmod(self.top, 0o755)
        if os.geteuid() == 0:
            os.chown(w, 65534, 65534)
        self.n = 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.top, ignore_errors=True)

    def new(self, D=None):
        """a data directory (path relative to the working directory) with files D: name -> list of lines"""
        self.n += 1
        p = os.path.join('data', 'd%d' % self.n)
        if D is not None:
            self.fill(p, D)
        return p

    def fill(self, p, D):
        q = os.path.join(self.top, p)
        os.makedirs(q)
        os.chmod(q, 0o777)
        for n, lines in D.items():
            with open(os.path.join(q, n), 'w') as f:
                f.write(''.join(x + '\n' for x in lines))
            os.chmod(os.path.join(q, n), 0o666)

    def read(self, p):
        """files of a data directory as lists of lines, without backups"""
        q = os.path.join(self.top, p)
        out = {}
        for n in os.listdir(q):
            f = os.path.join(q, n)
            if os.path.isfile(f):
                with open(f) as h:
                    out[n] = h.read().splitlines()
        return out

    def run(self, *args, **kw):
        env = {'PATH': os.path.join(self.top, 'utils') + ':' + REPO + '/hyperion/bin:/usr/bin:/bin', 'HOME': os.path.join(self.top, 'data'), 'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLCONFIGDIR': '/opt/vp/mpl', 'OPENBLAS_NUM_THREADS': '1'}
        env.update(kw.get('env', {}))
        r = subprocess.run([str(a) for a in args], cwd=self.top, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=_demote, timeout=60)
        self.log = r.stdout.decode(errors='replace')
        return r.returncode
