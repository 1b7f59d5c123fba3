"""Replays histories of configuration (generated by TLC from ConfigModel) against spectralDNS.config and get_solver,
for every option of every solver, each in a fork of a process that has only imported the solvers.
args: scripts.json"""
from dlib import *
import importlib
from spectralDNS import config, get_solver
rng = random.Random('conf-%s' % SEED)
quiet()
sys.stderr = open(os.devnull, 'w')
PI = np.pi
MESH = {'triplyperiodic': ['NS', 'VV', 'MHD'], 'doublyperiodic': ['NS2D', 'Bq2D'],
        'channel': ['KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3']}
dim = lambda m: 2 if m == 'doublyperiodic' else 3
EXPL = ['RK4', 'ForwardEuler', 'AB2', 'BS5_adaptive', 'BS5_fixed']
COMMON = {'precision': ['single', 'double'], 'optimization': ['cython', 'weave', 'numba', 'pythran'], 'make_profile': 'int', 'dt': 'float',
          'T': 'float', 'write_result': 'int', 'checkpoint': 'int', 'nu': 'float', 't': 'float', 'tstep': 'int', 'filemode': ['w', 'r', 'a'],
          'dealias': ['2/3-rule', '3/2-rule', 'None'], 'decomposition': ['slab', 'pencil'], 'ntol': 'int', 'threads': 'int',
          'h5filename': 'str', 'verbose': 'bool', 'mask_nyquist': 'bool', 'L': 'L', 'M': 'M', 'N': 'N'}
QUAD = ['GC', 'GL']
OWN = {'triplyperiodic': {'convection': ['Standard', 'Divergence', 'Skewed', 'Vortex'], 'TOL': 'float', 'integrator': EXPL},
       'doublyperiodic': {'convection': ['Vortex'], 'TOL': 'float', 'integrator': EXPL},
       'channel': {'convection': ['Standard', 'Divergence', 'Skew', 'Vortex'], 'Dquad': QUAD, 'Bquad': QUAD, 'Nquad': QUAD}}
SUB = {'MHD': {'eta': 'float'}, 'Bq2D': {'Ri': 'float', 'Pr': 'float'}}
for s in MESH['channel']:
    SUB[s] = {'integrator': ['implicitRK3'] if s in ('KMMRK3', 'KMMRK3_RB') else ['implicit']}


def options(m, s):
    return dict(COMMON, **dict(OWN[m], **SUB.get(s, {})))


def value(kind, m):
    """a token of the specification"""
    if isinstance(kind, list):
        return rng.choice(kind)
    if kind == 'int':
        return str(rng.randint(0, 40))
    if kind == 'float':
        return rng.choice(['0.3', '0.125', '1e-3', '2', '0.0071', '17.5'])
    if kind == 'str':
        return rng.choice(['one', 'two_2', 'c-3'])
    if kind == 'bool':
        return rng.choice(['True', 'False'])
    if kind == 'M':
        return [str(rng.randint(1, 7)) for _ in range(dim(m))]
    if kind == 'N':
        return [str(rng.randint(2, 33)) for _ in range(dim(m))]
    return [rng.choice([{'a': '2', 'pi': 1, 'b': '1'}, {'a': '1', 'pi': 1, 'b': '1'}, {'a': '5', 'pi': 0, 'b': '1'}, {'a': '7', 'pi': 0, 'b': '2'},
                        {'a': '4', 'pi': 1, 'b': '3'}, {'a': '1', 'pi': 1, 'b': '4'}]) for _ in range(dim(m))]


def two(kind, m):
    """two values, different where the option has more than one"""
    a = b = value(kind, m)
    for _ in range(50):
        b = value(kind, m)
        if a != b:
            break
    return a, b


def ltext(x):
    """an expression, as it is typed"""
    t = {('1', 1): 'pi'}.get((x['a'], x['pi']), x['a'] + ('*pi' if x['pi'] else ''))
    return t if x['b'] == '1' else t + '/' + x['b']


def prog(kind, tok):
    """as a program gives it"""
    if kind == 'int':
        return int(tok)
    if kind == 'float':
        return float(tok)
    if kind == 'bool':
        return tok == 'True'
    if kind in ('M', 'N'):
        v = [int(x) for x in tok]
        return rng.choice([v, tuple(v), np.array(v), list(tok)])
    if kind == 'L':
        v = [float(x['a']) * (PI if x['pi'] else 1) / float(x['b']) for x in tok]
        return rng.choice([v, tuple(v), [ltext(x) for x in tok]])
    return tok


def cli(o, kind, tok):
    if kind == 'bool':
        return ['--%s%s' % ('' if tok == 'True' else 'no-', o)]
    if kind in ('M', 'N'):
        return ['--' + o] + list(tok)
    if kind == 'L':
        return ['--' + o] + [ltext(x) for x in tok]
    return rng.choice([['--' + o, tok], ['--%s=%s' % (o, tok)]])


def see(x):
    if isinstance(x, (bool, np.bool_)):
        return {'ty': 'bool', 'v': str(bool(x)), 'fl': ''}
    if isinstance(x, str):
        return {'ty': 'str', 'v': x, 'fl': ''}
    if isinstance(x, np.ndarray) and x.ndim == 1:
        return {'ty': 'arr', 'v': [hx(y) for y in x], 'fl': ''}
    if isinstance(x, (int, float, np.number)) and np.ndim(x) == 0:
        return {'ty': 'num', 'v': hx(x), 'fl': type(x).__name__}
    return {'ty': 'other', 'v': repr(x)[:80], 'fl': ''}


def reading(fn):
    try:
        return see(fn())
    except Exception as e:      # noqa
        return {'ty': 'raised', 'v': type(e).__name__, 'fl': ''}


class Hist(object):
    def __init__(self, mesh, solver):
        self.mesh, self.solver, self.ev, self.ncb, self.calls, self.known = mesh, solver, [], 0, [], False

    def update(self, mesh, new):
        kinds = {}
        for s in MESH[mesh]:
            kinds.update(options(mesh, s))
        config.update({o: prog(kinds[o], v) for o, v in new.items()}, mesh)
        self.ev.append({'op': 'update', 'mesh': mesh, 'new': new})

    def callback(self, what):
        self.ncb += 1
        name = '%s-%d' % (what, self.ncb)

        def fn(context):
            self.calls.append((name, context))
        return name, fn

    def get(self, mesh, solver, given, raw=None, asked=None):
        kinds = options(mesh, solver) if solver in MESH[mesh] else dict(COMMON)
        before, after = [], []
        for o, v in given.items():
            (after if o in SUB.get(solver, {}) else before).extend(cli(o, kinds.get(o, 'str'), v))
        line = before + [asked or solver] + after
        if raw:
            line = raw
        cbs = {}
        names = {}
        for w in ('update', 'regression_test', 'additional_callback'):
            if rng.random() < 0.4:
                names[w], cbs[w] = self.callback(w)
        e = {'op': 'get', 'mesh': mesh, 'solver': asked or solver, 'cli': given, 'cbs': names, 'malformed': bool(raw), 'early': False,
             'ok': False, 'ret': '', 'linked': False, 'cb': {'update': '', 'regression_test': '', 'additional_callback': ''}}
        try:
            old = sys.argv
            if rng.random() < 0.3:
                sys.argv = ['program.py'] + line
                sv = get_solver(mesh=mesh, **cbs)
            else:
                sv = get_solver(mesh=mesh, parse_args=line, **cbs)
        except SystemExit:
            e['early'] = True
        except Exception as x:      # noqa
            e['text'] = repr(x)[:200]
        else:
            e['ok'], e['ret'], e['linked'] = True, sv.__name__.split('.')[-1], config.solver is sv
            for w in e['cb']:
                del self.calls[:]
                try:
                    getattr(sv, w)(self)
                except Exception as x:      # noqa
                    e['cb'][w] = 'raised-' + type(x).__name__
                else:
                    e['cb'][w] = '+'.join(n if a is self else 'called-without-context' for n, a in self.calls)
            self.known = True
        sys.argv = old
        self.ev.append(e)
        return e['ok']

    def set(self, how, o, tok, kind):
        if how == 'attr':
            setattr(config.params, o, prog(kind, tok))
        else:
            config.params[o] = prog(kind, tok)
        self.ev.append({'op': 'set', 'o': o, 'v': tok, 'how': how})

    def poke(self):
        """try to change the mesh and the domain in place"""
        for o in ('M', 'L', 'N', 'dx'):
            for fn in (lambda x: x.__setitem__(0, 3), lambda x: x.fill(1), lambda x: x.__imul__(2), lambda x: x.sort()):
                for get in (lambda: getattr(config.params, o), lambda: config.params[o]):
                    try:
                        fn(get())
                    except Exception:      # noqa
                        pass
        self.ev.append({'op': 'poke'})

    def read(self, names, all=False):
        vals = {}
        for o in names:
            vals[o] = {'attr': reading(lambda: getattr(config.params, o)), 'key': reading(lambda: config.params[o])}
        self.ev.append({'op': 'read', 'vals': vals, 'all': all})


def run(script, mesh, solver, focus):
    h = Hist(mesh, solver)
    others = [m for m in MESH if m != mesh]
    om = rng.choice(others)
    kind = options(mesh, solver)[focus]
    v1, v2 = two(kind, mesh)
    tok = {'v1': v1, 'v2': v2, 'v': v1}
    okind = [options(om, s).get(focus) for s in MESH[om]]
    okind = [k for k in okind if k][:1]
    more = lambda m, s, n: {o: value(k, m) for o, k in rng.sample(sorted(options(m, s).items()), n) if o != focus and not (o == 'N' and rng.random() < 0.7)}
    nocli = lambda d: {o: v for o, v in d.items() if o != 'N'}
    for op in script:
        this = op['mesh'] != 'other'
        m, s = (mesh, solver) if this else (om, rng.choice(MESH[om]))
        if op['op'] == 'update':
            new = more(m, s, rng.choice([0, 0, 3]))
            if this:
                new[focus] = tok[op['v']]
            elif okind:
                new[focus] = value(okind[0], om)
            h.update(m, new)
        elif op['op'] == 'get':
            if this and focus not in SUB.get(solver, {}) and rng.random() < 0.3:
                s = rng.choice(MESH[m])
            given = nocli(more(m, s, rng.choice([0, 0, 3])))
            if op['v'] and focus != 'N':
                given[focus] = tok[op['v']]
            if not this and focus in options(m, s) and focus in given:
                del given[focus]
            if not h.get(m, s, given):
                break
        elif op['op'] == 'bad':
            k = kind
            if isinstance(k, list):
                w = rng.choice([k[0][:-1] if len(k[0]) > 1 else k[0] + 'x', k[0] + 'x', k[-1].upper() if k[-1].upper() not in k else 'zz', 'none', ''])
                if w in k:
                    w = 'zz'
                h.get(m, s, {focus: w})
            elif k in ('int', 'float'):
                pre, post = (['--' + focus, 'x1'], [])
                if focus in SUB.get(s, {}):
                    pre, post = post, pre
                h.get(m, s, {}, raw=pre + [s] + post)
            else:
                w = rng.choice(['unknown', 'foreign', 'option', 'Bq'])
                if w == 'unknown':
                    h.get(m, s, {}, asked='NSS')
                elif w == 'foreign':
                    h.get(m, s, {}, asked=rng.choice(MESH[om]))
                elif w == 'Bq':
                    h.get('triplyperiodic', 'NS', {}, asked='Bq')
                    h.known = False
                else:
                    h.get(m, s, {}, raw=['--noSuchOption', '3', s])
        elif op['op'] == 'set' and h.known:
            h.set(op['mesh'], focus, tok[op['v']], kind)
        if h.known:
            if rng.random() < 0.2:
                h.poke()
            h.read([focus, 'N', 'dx'])
    if h.known:
        h.read(sorted(set(options(mesh, solver)) | {'N', 'dx'}))
    return h.ev


scripts = json.load(open(ARGS[0]))
# every solver is imported before the histories start, with the plain options
config.params.update({'optimization': '', 'precision': 'double', 'solver': 'none'})
for m in MESH:
    for s in MESH[m]:
        importlib.import_module('spectralDNS.solvers.' + s)
G = lambda v='': {'op': 'get', 'mesh': 'this', 'v': v}
U = lambda v: {'op': 'update', 'mesh': 'this', 'v': v}
core = [[G()], [U('v1'), G()], [G('v1')], [U('v1'), G('v2')], [{'op': 'bad', 'mesh': 'this', 'v': 'v1'}, G()]]
triples = [(m, s, o) for m in MESH for s in MESH[m] for o in sorted(options(m, s))]
rng.shuffle(triples)
work = [(c,) + t for c in core for t in triples]
reps = 12 if THOROUGH else 2
for r in range(reps):
    work += [(sc,) + triples[(k + r * 131) % len(triples)] for k, sc in enumerate(scripts)]
scen = []
for k, (script, m, s, o) in enumerate(work):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            rng.seed('%s-%d' % (SEED, k))
            ev = []
            try:
                ev = run(script, m, s, o)
            except Exception as e:      # noqa
                ev.append({'op': 'raised', 'what': type(e).__name__, 'text': traceback.format_exc()[-800:]})
            with os.fdopen(wr, 'w') as f:
                f.write(json.dumps(ev))
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    ev = json.loads(text) if text else [{'op': 'raised', 'what': 'process-ended-%d' % status}]
    scen.append({'name': '%s %s %s: %s' % (m, s, o, ' '.join(x['op'] + ('.' + x['mesh'] if x['op'] != 'get' else '') + '.' + str(x['v']) for x in script)),
                 'key': '%s:%s:%s' % (m, s, o), 'events': ev})
save(scen)
