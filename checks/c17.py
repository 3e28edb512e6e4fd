"""C17: command line and library give the same results."""
import json
import os
import subprocess
import sys

import numpy as np

from checks import c13
from checks.c16 import content, folder, identical, own_reader, plain
from vlib.run import REPO
from vlib.util import captured

RULE = ('random inputs of all routines on offer, run by the command line (in '
        'its own process, and through its entry point) and by the library; '
        'defects injected into invocation, input and output with exit status, '
        'streams and files monitored; distinct by routine, format, defect')
REQUIRED = {'processes': 24, 'failures': 90, 'same': 60, 'printed': 10}
ASSUMPTIONS = ['own processes share compiled kernels through a cache']
ROUT = {'dipole': 'c_dipole', 'bipole': 'c_bipole', 'loop': 'c_loop',
        'analytical': 'c_analytical'}


def warmup(group):
    c13.warmup(group)


def process(args, cwd=None):
    """Result of an own command-line process."""
    env = {**os.environ, 'PYTHONPATH': str(REPO)}
    p = subprocess.run([sys.executable, '-m', 'empymod']+args, capture_output=True, text=True, env=env,
                       timeout=140, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout, p.stderr


def inproc(args):
    """Same through the entry point; status as by sys.exit."""
    from empymod.__main__ import main
    import contextlib
    import io
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        try:
            r = main(args)
        except SystemExit as s:
            r = s.code
        except Exception as x:      # Traceback in a process: status 1
            r = x
    if r is None or isinstance(r, int):
        code = r or 0
    else:
        code = 1
        e.write(str(r) or repr(r))
    return code, o.getvalue(), e.getvalue()


def launch(t, args):
    if t.kind.startswith('proc'):
        t.count('processes')
        return process(args)
    return inproc(args)


def make_input(rng):
    r = str(rng.choice(list(ROUT), p=[.35, .3, .15, .2]))
    _, _, kw = getattr(c13, ROUT[r])(rng)
    kw = plain(kw)
    if kw.get('solution') in ('dsplit', 'dtetm'):    # Tuples: not storable
        kw['solution'] = 'dhs'
    kw['verb'] = int(rng.choice([0, 0, 1, 2]))
    if rng.random() < .3:
        kw.pop('squeeze', None)
    elif rng.random() < .5 and r != 'loop':
        kw['squeeze'] = bool(rng.integers(2))
    return r, kw


def write(rng, name, kw):
    with open(name, 'w', encoding='utf-8') as f:
        json.dump(kw, f, indent=[None, 2][int(rng.integers(2))])


def library(r, kw):
    import empymod
    with captured():
        return np.array(getattr(empymod, r)(**{**kw, 'squeeze': False}))


def k_same(t):
    """Result files and printed results."""
    import empymod
    rng = t.rng
    d = folder(t)
    r, kw = make_input(rng)
    iname = ['in.json', 'my in.json', 'ü.json', 'a.b.json'][
        int(rng.integers(4))]
    if rng.random() < .3:
        os.makedirs('sub dir', exist_ok=True)
        iname = os.path.join('sub dir', iname)
    if rng.random() < .4:
        iname = os.path.abspath(iname)
    write(rng, iname, kw)
    k = int(rng.integers(3))
    oname = [None, 'out.txt', 'out.json'][k]
    if oname and rng.random() < .4:
        oname = os.path.join(d, 'x '+oname)
    if oname and rng.random() < .3:
        with open(oname, 'w') as f:
            f.write('to be replaced')
    args = [r, iname] + ([oname] if oname else [])
    t.case(args=args, input=kw)
    before = content(d)
    want = library(r, json.loads(json.dumps(kw)))
    code, out, err = launch(t, args)
    t.check(code == 0, 'valid-run-fails', f'{code}: {err[-800:]}')
    after = content(d)
    new = {f for f in after if after[f] != before.get(f)}
    t.sig(r, k, sorted(kw), want.shape)
    if oname is None:
        t.check(not new, 'unexpected-files', new)
        t.check(str(want) in out, 'printed-differs', f'{out[-500:]}')
        t.count('printed')
        return
    t.check(new == {os.path.relpath(oname, d)}, 'unexpected-files', new)
    got = np.array(empymod.io.load_data(oname))
    t.check(identical(got, want), 'file-differs', f'{got} | {want}')
    # As if saved by the library (besides date and information).
    ref = 'ref.'+oname.split('.')[-1]
    empymod.io.save_data(ref, want)
    a, b = own_reader(oname), own_reader(ref)
    t.check(a['shape'] == b['shape'] and a['dtype'] == b['dtype'],
            'meta-differs', a)
    t.check(r in a['info'] and iname in a['info'], 'info-differs', a)

    def body(f):
        lines = open(f, encoding='utf-8').read().split('\n')
        return [x for x in lines if not any(
            w in x[:12] for w in ('date', 'info', 'version'))]
    t.check(body(oname) == body(ref),
            'file-differs', 'text')
    t.count('same')


def broken(rng, r, kw):
    """Defective input; parameters as dict, or file content as text."""
    kw = dict(kw)
    k = int(rng.integers(16))
    if k == 0:
        kw['resistivity'] = 3.
    elif k == 1:
        del kw[str(rng.choice(['src', 'rec', 'res', 'freqtime']))]
    elif k == 2:
        kw['res'] = [1., 2., 3., 4., 5., 6., 7., 8., 9.]
    elif k == 3:
        kw['src'] = kw['src'][:2]
    elif k == 4:
        kw['rec'] = [0, 0, 0, 0, 0, 0, 0, 0]
    elif k == 5:
        if r in ('dipole', 'analytical'):
            kw['ab'] = int(rng.choice([0, 7, 17, 71, 111, -11]))
        else:
            kw['src'] = [0, 0]
    elif k == 6:
        kw['signal'] = 7
    elif k == 7:
        kw['aniso'] = [1., 2.]*20
    elif k == 8:
        if r == 'analytical':
            kw['solution'] = 'nice'
        else:
            kw['ht'] = 'magic'
    elif k == 9:
        kw['freqtime'] = 'often'
    elif k == 10:
        kw['src'] = None
    elif k == 11:
        return json.dumps(kw)[:-int(rng.integers(1, 30))]
    elif k == 12:
        return ''
    elif k == 13:
        return json.dumps([kw])
    elif k == 14:
        return json.dumps(kw).replace(':', '=', 1)
    else:
        return str(rng.choice(['3', 'null', '"text"', 'not json', '{]']))
    return json.dumps(kw)


def k_fail(t):
    rng = t.rng
    d = folder(t)
    r, kw = make_input(rng)
    iname, oname = 'in.json', f'out.{rng.choice(["txt", "json"])}'
    args = None
    k = int(rng.choice(9, p=[.44, .07, .07, .07, .07, .07, .07, .07, .07]))
    text = json.dumps(kw)
    if k == 0:
        text = broken(rng, r, kw)
    elif k == 1:
        r = str(rng.choice(['gpr', 'dipole_k', 'ip_and_q', 'Dipole', 'x', '',
                            'loops', 'fem']))
    elif k == 2:
        iname = 'absent.json'
    elif k == 3:
        iname = ['in.txt', 'in', 'in.JSON', 'in.yaml'][int(rng.integers(4))]
    elif k == 4:
        oname = str(rng.choice(['out', 'out.npz', 'out.dat', 'out.TXT']))
    elif k == 5:
        oname = os.path.join('absent', oname)
    elif k == 6:
        os.makedirs('dir.json')
        iname = 'dir.json'
    elif k == 7:
        args = [[r, 'in.json', oname, 'more'], [r, 'in.json', oname, '--bad'],
                ['--nope'], [r, 'in.json', oname, '-v']][int(rng.integers(4))]
    else:
        os.makedirs(oname)
    for n in {iname, 'in.json'} - {'absent.json', 'dir.json'}:
        with open(n, 'w', encoding='utf-8') as f:
            f.write(text)
    if k not in (5, 8) and rng.random() < .4:
        with open(oname, 'w') as f:
            f.write('precious')
    args = args or [r, iname] + ([oname] if rng.random() < .9 or
                                 k in (4, 5, 8) else [])
    t.case(k=k, args=args, input=text[:3000])
    before = content(d)
    code, out, err = launch(t, args)
    t.check(code != 0, 'failure-not-reported', f'{out[-300:]} {err[-300:]}')
    t.check(err.strip(), 'failure-silent', out[-300:])
    t.check(content(d) == before, 'files-touched', sorted(content(d)))
    t.count('failures')
    t.sig('fail', k, r, args[-1], text[-20:] if k == 0 else '')


def k_info(t):
    """Information requests compute nothing."""
    import empymod
    rng = t.rng
    d = folder(t)
    r, kw = make_input(rng)
    write(rng, 'in.json', kw)
    before = content(d)
    v = f'v{empymod.__version__}'
    for args, want in (
            (['--version'], v), (['--report'], 'empymod'), ([], '--help'),
            (['--help'], 'routine'), ([r], '--help'),
            ([r, 'in.json', 'out.txt', '--version'], v)):
        t.case(args=args)
        code, out, err = launch(t, args)
        t.check(code == 0 and want in out, 'info', f'{code} {out} {err}')
        t.check(content(d) == before, 'files-touched', sorted(content(d)))
        t.sig('info', args)


CASES = [
    ('proc', k_same, 24, 300),
    ('procfail', k_fail, 16, 250),
    ('procinfo', k_info, 1, 4),
    ('entry', k_same, 110, 3000),
    ('entryfail', k_fail, 160, 5000),
    ('entryinfo', k_info, 3, 30),
]
