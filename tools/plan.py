"""What each check explores."""
import os, glob
import mbt
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
THOROUGH_S = 600
ASSUME = [
    'one storage operation at a time (as the API requires)',
    'storage returns what was stored unless the history says otherwise',
    'sequence numbers stay below 2^32 - 1',
]
CORE = [f'C{n:02}' for n in list(range(1, 19)) + [23, 24, 25]]
WORKER = ['C19', 'C20', 'C21', 'C22']
WRANDOM = ['wplain', 'wgate', 'wfault', 'wstop', 'wmix', 'wgc']
RANDOM = ['plain', 'mix', 'crash', 'fault', 'cancel', 'conc', 'lists', 'gc', 'seq', 'reset', 'damage', 'flash', 'power', 'deep', 'fill', 'schema', 'half', 'late', 'many']
LONG = ['C04', 'C06', 'C15', 'C18']
# profiles that matter most for a property
FOCUS = {
    'C01': ['crash', 'fault', 'cancel', 'gc', 'sweep', 'npower'],
    'C02': ['conc', 'crash', 'fault', 'sweep', 'half', 'late'],
    'C03': ['plain', 'damage', 'crash', 'reset', 'seq', 'sweep'],
    'C04': ['gc', 'seq', 'crash', 'sweep'],
    'C05': ['gc', 'damage', 'fault', 'flash'],
    'C06': ['seq', 'crash', 'damage', 'reset', 'sweep'],
    'C07': ['fault', 'conc', 'cancel', 'plain', 'sweep', 'late'],
    'C08': ['plain', 'gc', 'conc', 'fault'],
    'C09': ['plain', 'cancel', 'reset', 'fault', 'sweep', 'half', 'late'],
    'C10': ['conc', 'lists', 'cancel', 'late'],
    'C11': ['conc', 'cancel', 'fault', 'lists', 'half', 'late'],
    'C12': ['lists', 'cancel', 'plain'],
    'C13': ['lists', 'cancel', 'conc'],
    'C14': ['cancel', 'sweep', 'conc', 'half', 'late'],
    'C15': ['fault', 'cancel', 'deep', 'sweep', 'half'],
    'C16': ['flash', 'damage', 'power', 'fill'],
    'C17': ['npower', 'power', 'fill'],
    'C18': ['flash', 'fill', 'power', 'deep'],
    'C19': ['wplain', 'wgate', 'wmix', 'wgc'],
    'C20': ['wstop', 'wfault', 'wmix'],
    'C21': ['wplain', 'wgate'],
    'C22': ['noop'],
    'C23': ['reset', 'cancel', 'damage'],
    'C24': ['plain', 'fault', 'damage', 'flash'],
    'C25': ['schema', 'damage', 'plain'],
}


# configurations of the design model (Noodle.tla), all without violation; quick: below 10 s each
SMALL = {
    'crash':   dict(MAXDET=0, MAXHD=0, MAXRST=0, KEYS='Keys12', MAXATT=2, MAXWR=1, MAXOPS=3, MAXFLT=0, MAXCXL=0, MAXCRASH=1, INITS='{1, 2, 3}'),
    'fault':   dict(MAXDET=0, MAXHD=0, MAXRST=0, KEYS='Keys1', MAXATT=1, MAXWR=1, MAXOPS=3, MAXFLT=1, MAXCXL=1, MAXCRASH=1, INITS='{1, 2, 5}'),
    'mid':     dict(MAXDET=0, MAXHD=0, MAXRST=0, KEYS='Keys12', MAXATT=2, MAXWR=1, MAXOPS=3, MAXFLT=1, MAXCXL=1, MAXCRASH=0, INITS='{1, 2, 5}'),
    'keep2':   dict(MAXDET=0, MAXHD=0, MAXRST=0, KEYS='Keys1', K=2, MAXATT=1, MAXWR=2, MAXOPS=6, MAXFLT=1, MAXCXL=0, MAXCRASH=1, INITS='{4, 6}'),
    'reset':   dict(MAXDET=0, MAXHD=0, KEYS='Keys1', MAXATT=1, MAXWR=1, MAXOPS=4, MAXFLT=1, MAXCXL=0, MAXCRASH=0, MAXRST=1, INITS='{3, 4, 6}'),
    'attach':  dict(MAXRST=0, KEYS='Keys11', MAXATT=3, MAXWR=0, MAXOPS=2, MAXFLT=0, MAXCXL=1, MAXCRASH=0, MAXDET=1, MAXHD=1, INITS='{1, 2}'),
    'detach':  dict(MAXRST=0, KEYS='Keys12', MAXATT=3, MAXWR=1, MAXOPS=2, MAXFLT=0, MAXCXL=0, MAXCRASH=0, MAXDET=1, MAXHD=1, INITS='{2}'),
    'schema':  dict(MAXRST=0, KEYS='Keys11', TYPES='Ty02', MAXATT=2, MAXWR=1, MAXOPS=3, MAXFLT=0, MAXCXL=0, MAXCRASH=1, MAXDET=1, MAXHD=1, INITS='{2}'),
    'late':    dict(MAXRST=0, KEYS='Keys12', MAXATT=2, MAXWR=1, MAXOPS=3, MAXFLT=0, MAXCXL=1, MAXCRASH=0, MAXDET=0, MAXHD=0, MAXHOLD=1, INITS='{1, 2}'),
    'twofail': dict(MAXDET=0, MAXHD=0, MAXRST=0, KEYS='Keys1', MAXATT=1, MAXWR=1, MAXOPS=5, MAXFLT=2, MAXCXL=0, MAXCRASH=0, INITS='{1, 4}'),
}
LARGE = {
    'l-reset': dict(MAXDET=0, MAXHD=0, KEYS='Keys1', MAXATT=1, MAXWR=1, MAXOPS=5, MAXFLT=1, MAXCXL=1, MAXCRASH=1, MAXRST=1, INITS='{3, 4, 6}'),
    'l-mid':   dict(MAXDET=0, MAXHD=0, MAXRST=0, KEYS='Keys12', MAXATT=2, MAXWR=2, MAXOPS=4, MAXFLT=1, MAXCXL=1, MAXCRASH=1, INITS='{1, 3, 4}'),
    'l-keep2': dict(MAXDET=0, MAXHD=0, MAXRST=0, KEYS='Keys12', K=2, MAXATT=2, MAXWR=2, MAXOPS=6, MAXFLT=1, MAXCXL=0, MAXCRASH=1, INITS='{4, 6}'),
    'l-att':   dict(MAXRST=0, KEYS='Keys121', MAXATT=4, MAXWR=0, MAXOPS=2, MAXFLT=0, MAXCXL=1, MAXCRASH=0, MAXDET=1, MAXHD=1, INITS='{1, 2}'),
    'l-det':   dict(MAXRST=0, KEYS='Keys12', MAXATT=3, MAXWR=1, MAXOPS=3, MAXFLT=0, MAXCXL=1, MAXCRASH=0, MAXDET=1, MAXHD=1, INITS='{2, 5}'),
    'l-schema': dict(MAXRST=0, KEYS='Keys111', TYPES='Ty203', MAXATT=3, MAXWR=1, MAXOPS=3, MAXFLT=0, MAXCXL=0, MAXCRASH=1, MAXDET=2, MAXHD=2, INITS='{2}'),
    'l-fail':  dict(MAXDET=0, MAXHD=0, MAXRST=0, KEYS='Keys1', MAXATT=1, MAXWR=2, MAXOPS=7, MAXFLT=2, MAXCXL=1, MAXCRASH=1, INITS='{1, 2, 3, 4, 5, 6}'),
}
# configurations of the worker (Worker.tla)
WSMALL = {
    'w-live':  dict(KEYS='Keys12', INITS='{3}', spec='Live', props='Served Stored Swept'),
    'w-one':   dict(KEYS='Keys1', INITS='{4}', MAXATT=2, MAXHD=1, MAXDET=1, MAXWR=1, MAXSTOP=1, MAXFLT=1, spec='Live', props='Returns'),
    'w-stop':  dict(KEYS='Keys12', INITS='{3}', MAXWR=1, MAXSTOP=1, spec='Live', props='Returns'),
    'w-fault': dict(KEYS='Keys12', INITS='{3}', MAXWR=1, MAXFLT=1),
}
WLARGE = {
    'wl-one':  dict(KEYS='Keys1', INITS='{1, 2, 3, 4, 5, 6}', MAXATT=2, MAXHD=1, MAXDET=1, MAXSTOP=1, MAXFLT=1, spec='Live', props='Returns'),
    'wl-live': dict(KEYS='Keys12', INITS='{1, 3, 4}', MAXATT=3, MAXHD=1, MAXDET=1, spec='Live', props='Served Stored Swept'),
    'wl-stop': dict(KEYS='Keys12', INITS='{1, 3}', MAXSTOP=1, MAXFLT=1, spec='Live', props='Returns'),
}
NOOP = {
    'noop':   dict(KEYS='Keys12', INITS='{1}', MAXATT=3, MAXWR=2, MAXDET=1, MAXHD=1, MAXOPS=3, MAXFLT=0, MAXCRASH=0, MAXCXL=1, MAXRST=0,
                   spec='NoopSpec', inv='Clean Faithful Noop'),
    'l-noop': dict(KEYS='Keys121', INITS='{1}', MAXATT=5, MAXWR=2, MAXDET=2, MAXHD=2, MAXOPS=3, MAXFLT=0, MAXCRASH=0, MAXCXL=1, MAXRST=0,
                   spec='NoopSpec', inv='Clean Faithful Noop'),
}
MODEL_OF = {
    'C01': ['crash', 'fault', 'l-fail'], 'C02': ['crash', 'mid', 'l-mid'], 'C03': ['crash', 'reset', 'l-mid'], 'C04': ['keep2', 'fault', 'l-keep2'],
    'C05': ['keep2', 'twofail', 'l-keep2'], 'C06': ['keep2', 'twofail', 'l-reset'], 'C07': ['fault', 'twofail', 'l-fail'],
    'C08': ['keep2', 'fault', 'l-fail'], 'C09': ['reset', 'fault', 'l-reset'], 'C10': ['attach', 'late', 'l-att'],
    'C11': ['mid', 'detach', 'l-mid'], 'C12': ['attach', 'detach', 'l-att'], 'C13': ['detach', 'attach', 'l-det'],
    'C14': ['fault', 'late', 'attach', 'l-det'], 'C15': ['twofail', 'fault', 'l-fail'], 'C16': ['fault'], 'C17': ['crash'],
    'C18': ['twofail'], 'C19': ['w-live', 'w-fault', 'wl-live'], 'C20': ['w-stop', 'w-one', 'wl-one', 'wl-stop'], 'C21': ['w-live'], 'C22': ['noop', 'l-noop'],
    'C23': ['reset', 'l-reset'], 'C24': ['fault', 'keep2'], 'C25': ['schema', 'l-schema'],
}
# simulated behaviours of the design model that are replayed into the code
SIM = [
    dict(KEYS='Keys12', MAXHOLD=1),
    dict(KEYS='Keys121', MAXFLT=2, MAXCXL=2, MAXOPS=12, MAXATT=6, MAXWR=6, MAXRST=0),
    dict(KEYS='Keys12', K=2, MAXFLT=2, MAXCXL=1, MAXOPS=16, MAXATT=3, MAXWR=6, MAXRST=1, MAXDET=0, MAXHD=0, MAXCRASH=2),
    dict(KEYS='Keys11', MAXOPS=8, MAXATT=8, MAXDET=4, MAXHD=4, MAXCXL=3, MAXFLT=0, MAXCRASH=0, MAXRST=0),
    dict(KEYS='Keys121', MAXHOLD=5, MAXATT=8, MAXOPS=10, MAXCXL=2, MAXHD=3, MAXDET=2, MAXWR=4, MAXRST=0),
]
SCHEMA_SIM = dict(KEYS='Keys111', TYPES='Ty024', MAXOPS=12, MAXATT=8, MAXDET=5, MAXHD=6, MAXWR=4, MAXCXL=0, MAXFLT=1, MAXCRASH=3, MAXRST=0)

WSIM = [
    dict(KEYS='Keys12', STEPS='{10, 50, 90, 4000, 9990, 60000}'),
    dict(KEYS='Keys123', STEPS='{50, 90, 10000}', MAXATT=12, MAXHD=8, MAXDET=5, MAXSTOP=0, MAXFLT=0),
    dict(KEYS='Keys12', K=2, STEPS='{100, 5000, 9990}', MAXWR=20, MAXFLT=4, MAXADV=60),
    dict(KEYS='Keys123', STEPS='{90, 9990}', MAXSTOP=6),
]
ALL = {**SMALL, **LARGE, **WSMALL, **WLARGE, **NOOP}


def models(prop, tier):
    names = MODEL_OF.get(prop, [])
    out = []
    for n in names:
        if n in ALL and (n in SMALL or n in WSMALL or n == 'noop' or tier == 'thorough'):
            w = n in WSMALL or n in WLARGE
            out.append({'name': n, 'mod': 'MCW' if w else 'MC', 'kw': dict(ALL[n], SCRIPT='FALSE', worker=w)})
    if prop == 'C16':
        n = 'CodecMC' if tier == 'quick' else 'CodecMCL'
        out.append({'name': n, 'mod': 'CodecMC', 'cfg': n + '.cfg'})
    if prop == 'C18':
        for n in ['Space', 'SpaceN'] + (['SpaceL', 'SpaceNL'] if tier == 'thorough' else []):
            out.append({'name': n, 'mod': 'Space', 'cfg': n + '.cfg'})
    return out


def codec(prop, seed, scale, rnd=0):
    """what the flash backend makes of elements and bytes; judged by CTrace"""
    n = {'C16': 400, 'C24': 60}.get(prop, 0)
    s = seed * 1000 + int(prop[1:]) * 17 + rnd * 101
    return [('CTrace', [('gen', 'codec', (s + i, 0, int(n * scale))) for i in range(4)])] if n else []


def sims(prop, tier, seed, rnd=0):
    """(seed, behaviours per worker, depth, config)"""
    num = int(prop[1:])
    n = 60 if tier == 'quick' else 300
    if prop in WORKER:
        if prop == 'C22':
            return []
        return [(seed * 7919 + num * 31 + i + rnd * 1009, n, 300, dict(mbt.WSIM, worker=True) | c) for i, c in enumerate([WSIM[0], WSIM[1 + (num + rnd) % 3]])]
    s = [SCHEMA_SIM if prop == 'C25' else SIM[0], SIM[1 + (num + rnd) % 4]]
    return [(seed * 7919 + num * 31 + i + rnd * 1009, n, 200, c) for i, c in enumerate(s)]


def hist(prop, seed, scale, rnd=0):
    """generation jobs of the storage part"""
    num = int(prop[1:])
    s = seed * 1000 + num * 17 + rnd * 101
    js = []
    for p in RANDOM:
        js.append(('gen', p, (s, 0, int(40 * scale))))
    js.append(('gen', 'sweep:8', (s, 0, int(25 * scale))))
    js.append(('gen', 'long', (s, 0, int((5 if prop in LONG else 2) * scale))))
    for p in FOCUS.get(prop, []):
        if p == 'sweep':
            js.append(('gen', 'sweep:14', (s + 5, 0, int(70 * scale))))
        elif p == 'npower':
            js.append(('gen', 'npower:10', (s + 5, 0, int(16 * scale))))
        else:
            js.append(('gen', p, (s + 5, 0, int(250 * scale))))
    return js


def whist(prop, seed, scale, rnd=0):
    """generation jobs of the workers"""
    num = int(prop[1:])
    s = seed * 1000 + num * 17 + rnd * 101
    if prop == 'C22':
        return [('gen', 'noop', (s + i, i * 10000, int(500 * scale))) for i in range(4)] + [('gen', 'noops', (s, 0, int(12 * scale)))]
    return [('gen', 'wlong', (s, 0, int(6 * scale)))] + [('gen', p, (s, 0, int(120 * scale))) for p in WRANDOM] + [('gen', p, (s + 5, 0, int(500 * scale))) for p in FOCUS[prop]]


def regress(kind, binary):
    return [('run', 'regression', (binary, f)) for f in sorted(glob.glob(f'{ROOT}/regress/{kind}*.scr'))]


def plan(prop, tier, seed, run):
    import check
    if prop in WORKER:
        return [('WTrace', regress('w', check.BIN) + [('sim', i, a) for i, a in enumerate(sims(prop, tier, seed))] + whist(prop, seed, 1.5))], models(prop, tier)
    jobs = [('Trace', regress('s', check.BIN) + [('sim', i, a) for i, a in enumerate(sims(prop, tier, seed))] + hist(prop, seed, 1.5))] + codec(prop, seed, 1)
    return jobs, models(prop, tier)


def more(prop, seed, rnd, run):
    if prop in WORKER:
        return [('WTrace', [('sim', i, a) for i, a in enumerate(sims(prop, 'thorough', seed, rnd))] + whist(prop, seed, 3, rnd))] + codec(prop, seed, 4, rnd)
    return [('Trace', [('sim', i, a) for i, a in enumerate(sims(prop, 'thorough', seed, rnd))] + hist(prop, seed, 3, rnd))] + codec(prop, seed, 4, rnd)
