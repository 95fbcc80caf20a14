"""Histories generated from the design model: TLC simulates spec/Noodle.tla, every behaviour becomes a script for
the harness together with the events the model expects."""
import os, re, json, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = ROOT + '/spec'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
# the initial contents Init0 of Noodle.tla; keys 1 and 2 are "a" and "b"
INIT = {1: '-', 2: 'S1;D61:1;E1:61=1', 3: 'S3;D61:2;S1;D61:1;D62:3;E1:61=1/62=3',
        4: 'S2;D61:1;E2:61=1;X;S1;D61:2;D62:3;E1:61=2/62=3', 5: 'D61:1;E1:;S1',
        6: 'S1;D61:1;E1:61=1;S2;D61:2;E2:61=2;S3;D61:3;E3:61=4'}
def nodes_of(d):
    """the nodes of a configuration, as the harness wants them"""
    ks, ts = d['KEYS'][4:], d.get('TYPES', 'Ty000')[2:]
    return ','.join(f'6{k}:{t}' for k, t in zip(ks, ts))


BASE = dict(K=1, KEYS='Keys12', TYPES='Ty000', INITS='{1, 2, 3, 4, 5, 6}', MAXOPS=8, MAXATT=4, MAXWR=3, MAXDET=1, MAXHD=1, MAXFLT=1,
            MAXCXL=1, MAXCRASH=1, MAXRST=1, MAXHOLD=0, SCRIPT='TRUE', VARIANT='"none"')

WBASE = dict(K=1, KEYS='Keys12', INITS='{1, 2, 3, 4, 5, 6}', RD=1, WD=3, GD=7, STEPS='{1}', MAXATT=2, MAXWR=2, MAXDET=0, MAXHD=0, MAXFLT=0,
             MAXSTOP=0, MAXADV=0, SLOW='TRUE', SCRIPT='FALSE', VARIANT='"none"')
# in the units of the code
WSIM = dict(RD=100, WD=10000, GD=120000, STEPS='{10, 50, 90, 4000, 9990, 60000}', MAXATT=8, MAXWR=10, MAXDET=2, MAXHD=3, MAXFLT=2, MAXSTOP=2,
            MAXADV=40, SLOW='FALSE', SCRIPT='TRUE')
WINV = 'NoLostRead NoLostWrite Flushed Sane Early'


def config(path, inv='Clean Faithful Known Recovers', spec='Spec', props='', worker=False, **kw):
    d = dict(WBASE if worker else BASE, **kw)
    if worker:
        inv = WINV
    with open(path, 'w') as f:
        f.write(f'SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\nCONSTANTS\n')
        for k, v in d.items():
            f.write(f' {k} {"<-" if k in ("KEYS", "TYPES") else "="} {v}\n')
        f.write('INVARIANTS ' + inv + '\n')
        if props:
            f.write('PROPERTIES ' + props + '\n')
    return d


def tla2py(s):
    s = s.replace('[', '{').replace(']', '}').replace('<<', '[').replace('>>', ']')
    s = re.sub(r'(\w+) \|->', r'"\1":', s).replace('TRUE', 'true').replace('FALSE', 'false')
    s = re.sub(r'\{(?=\s*[}"\d])(?!\s*"\w+":)([^{}]*)\}', r'[\1]', s)  # sets
    return json.loads(s)


def behaviours(d):
    for f in sorted(os.listdir(d)):
        t = open(os.path.join(d, f)).read()
        cm = re.findall(r'^/\\ cmds = (.*?)(?=^\S|\Z)', t, re.S | re.M)
        lg = re.findall(r'^/\\ log = (.*?)(?=^\S)', t, re.S | re.M)
        yield f, [tla2py(x) for x in cm], [tla2py(x) for x in lg]


def generate(seed, num, depth, out_scr, out_exp, tag, timeout=300, worker=False, **kw):
    """num behaviours per worker (8 workers); returns number of states simulated"""
    tmp = tempfile.mkdtemp(prefix='noodle-mbt-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), tmp)
        d = config(tmp + '/Sim.cfg', worker=worker, **kw)
        os.mkdir(tmp + '/b')
        p = subprocess.run(['java', '-Xmx4g', '-Xss16m', '-XX:+UseParallelGC', '-cp', JAR, 'tlc2.TLC', '-config', 'Sim.cfg', '-metadir', tmp + '/m',
                            '-noGenerateSpecTE', '-workers', '8', '-simulate', f'file={tmp}/b/t,num={num}', '-depth', str(depth),
                            '-seed', str(seed), 'MCW.tla' if worker else 'MC.tla'], cwd=tmp, capture_output=True, text=True, timeout=timeout)
        m = re.search(r'states generated: (\d+)', p.stdout)
        if 'Error:' in p.stdout or not m:
            raise RuntimeError('design model:\n' + p.stdout[-2500:])
        n = 0
        with open(out_scr, 'w') as fs, open(out_exp, 'w') as fe:
            for f, cm, lg in behaviours(tmp + '/b'):
                n += 1
                tid = f'{tag}-{n}'
                init = int(cm[0][0].split()[1])
                cs = [c for x in cm[1:] for c in x]
                fs.write(f'== {tid}\nsetup {d["K"]} model {nodes_of(d)} {INIT[init]} 0 0\n' + '\n'.join(cs) + '\nfin\n')
                fe.write(json.dumps([tid, [e for x in lg for e in x]]) + '\n')
        return int(m[1]), n
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


FIELDS = {'att': 'n lst def', 'attr': 'n res v', 'attc': 'n', 'hd': 'n', 'det': 'n lst', 'detr': 'n res', 'detc': 'n', 'wr': 'n v',
          'wrr': 'n res', 'wrc': 'n', 'op': 'op lst', 'opr': 'op res', 'opc': 'op', 'inv': 'i', 'flt': 'w', 'psh': 'sto', 'crash': '', 'stop': '', 'ret': '', 'wk': ''}


def digest(evs):
    out = []
    for e in evs:
        if e['e'] in FIELDS:
            x = [e['e']] + [e[f] for f in FIELDS[e['e']].split()]
            if e['e'] == 'psh':
                el = e['el']
                x += [el['k'], el['s'], el['key'], el['v'] if el['k'] != 'E' else 0, el['c'] if el['k'] == 'E' else 0]
            out.append(x)
    # results that become available at the same time come in any order
    i = 0
    while i < len(out):
        j = i
        while j < len(out) and out[j][0] in ('attr', 'wrr', 'detr'):
            j += 1
        out[i:j] = sorted(out[i:j])
        i = max(j, i + 1)
    return out


def compare(expected, nd):
    """how many behaviours of the model the real code followed exactly, event by event"""
    exp = {}
    for l in open(expected):
        t, e = json.loads(l)
        exp[t] = digest(e)
    same, diff = 0, []
    for l in open(nd):
        r = json.loads(l)
        tid, evs = (r['id'], r['ev']) if isinstance(r, dict) else (r[0], r[1])
        a, b = exp[tid], digest(evs)
        # the model may stop in the middle of an operation
        if b[:len(a)] == a:
            same += 1
        else:
            diff.append(tid)
    return same, diff


if __name__ == '__main__':
    import sys
    seed, num = int(sys.argv[1]), int(sys.argv[2])
    kw = dict(a.split('=', 1) for a in sys.argv[3:])
    if kw.pop('worker', ''):
        kw = dict(WSIM, worker=True, **kw)
    o = '/tmp/w/mbt'
    print(generate(seed, num, 150, o + '.scr', o + '.exp', 'm', **kw))
    subprocess.run([ROOT + '/harness/target/debug/noodle-harness', 'run', o + '.scr', o + '.nd'], check=True)
    s, d = compare(o + '.exp', o + '.nd')
    print('same', s, 'different', len(d), d[:5])
