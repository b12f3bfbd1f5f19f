"""C41 commands of simulations"""
import contextlib
import io
import os
import textwrap
import click
from traitlets.traitlets import Int, Float, Bool, Unicode, Enum, Complex, Tuple
from crowddynamics import cli
from crowddynamics.traits import class_own_traits
from symx.reg import harness

RUNS = []


def started(sim):
    """called by the simulations of the harness"""
    RUNS.append(sim)


def source(classes):
    """module with simulations: name -> attributes"""
    out = ['from traitlets.traitlets import Int, Float, Bool, Unicode, Enum, Complex, Tuple',
           'from crowddynamics.simulation.multiagent import MultiAgentSimulation', 'from harness import c41', '']
    for name, attrs, *base in classes:
        out.append('class %s(%s):' % (name, base[0] if base else 'MultiAgentSimulation'))
        out.append(textwrap.indent('\n'.join(attrs + ['def run(self):', '    c41.started(self)', '']), '    '))
    return '\n'.join(out)


MODULES = {'first': [('Hall', ['size = Int(default_value=3, min=0, max=9)', 'width = Float(default_value=2.5)'])],
           'second': [('Room', ['width = Float(default_value=1.5)', 'kind = Enum(default_value="a", values=("ab", "a", "b", 3, 31))']), ('Outdoor', []),
                      ('Annex', ['size = Int(4)'], 'Room')],
           'third': [('Bridge', ['flag = Bool(default_value=False)', 'label = Unicode("x")', 'size = Int(7)', 'lit = Bool(default_value=True)'])],
           'Extra-2 old.v1': [('MultiAgentSimulation', ['width = Float(default_value=0.5)', 'note = Unicode(None, allow_none=True)'])]}
OPTIONS = {'Hall': ['size', 'width'], 'Room': ['width', 'kind'], 'Outdoor': [], 'Bridge': ['flag', 'label', 'size', 'lit'], 'Annex': ['size'], 'MultiAgentSimulation': ['width', 'note']}
DEFAULT = {'Hall': dict(size=3, width=2.5), 'Room': dict(width=1.5, kind='a'), 'Outdoor': {}, 'Bridge': dict(flag=False, label='x', size=7, lit=True), 'Annex': dict(size=4), 'MultiAgentSimulation': dict(width=0.5, note=None)}


def directory(S, modules):
    d = S.scratch.new()
    for m in modules:
        with open(os.path.join(d, m + '.py'), 'w') as f:
            f.write(source(MODULES[m]))
    with open(os.path.join(d, 'notes.txt'), 'w') as f:
        f.write('class Nothing: pass')
    return d


def commands(S, d):
    """commands made in the directory d"""
    old = os.getcwd()
    cli.run.commands.clear()
    RUNS[:] = []
    try:
        os.chdir(d)
        cli.simulation_commands()
    finally:
        os.chdir(old)
    return dict(cli.run.commands)


def invoke(command, values):
    """as click does after it has parsed and converted the command line"""
    ctx = click.Context(command, info_name=command.name)
    ctx.params = dict(values)
    command.invoke(ctx)


def value(S, name, trait):
    if trait == 'size':
        return S.int(name, 0, 9)
    if trait == 'width':
        return S.real(name, -5, 5)
    if trait == 'kind':
        return S.choice(name, ['a', 'b', '3', 'ab', '31'])
    if trait in ('flag', 'lit'):
        return S.branch(S.bool(name))
    return S.choice(name, ['x', 'some text', ''])


def expected(trait, v):
    return int(v) if trait == 'kind' and v.isdigit() else v


@harness(bounds='any set of four modules with up to three simulations each (one derived from another, one with the name of its base) in the working directory; any of the commands with any subset of its options and any values')
def commanded(S):
    modules = S.subset('modules', sorted(MODULES))
    cs = commands(S, directory(S, modules))
    names = [n for m in modules for n, *_ in MODULES[m]]
    S.check('one command per simulation', sorted(cs) == sorted(names))
    for n in names:
        S.check('an option for every own trait', sorted(o.name for o in cs[n].params) == sorted(OPTIONS[n]))
        S.check('own defaults', all(o.default == DEFAULT[n][o.name] for o in cs[n].params))
    if not names:
        return
    n = S.choice('command', names)
    given = {t: value(S, t, t) for t in S.subset('options', OPTIONS[n])}
    params = {o.name: given.get(o.name, o.default) for o in cs[n].params}
    invoke(cs[n], params)
    S.check('one simulation ran', len(RUNS) == 1)
    sim = RUNS[0]
    S.check('its own simulation', type(sim).__name__ == n)
    for t in OPTIONS[n]:
        S.equal('option value or default', getattr(sim, t), expected(t, given[t]) if t in given else DEFAULT[n][t])


TEXT = {'size': ['0', '9', '10'], 'width': ['1.25', 'wide'], 'kind': ['a', '3', 'c'], 'label': ['text', '3'], 'flag': [None]}
CONVERT = dict(size=int, width=float, kind=lambda v: int(v) if v.isdigit() else v, label=str, flag=lambda v: True)
BAD = {'10', 'wide', 'c'}


@harness(configs=[dict(first=a, second=b) for a, b in [('Hall', None), ('Room', 'Hall'), ('Bridge', 'Outdoor'), ('Outdoor', 'Room')]],
         bounds='command lines of one or two chained commands with any subset of options and three values each, right or wrong')
def lines(S, first, second):
    cli.setup_logging = lambda *a, **k: None
    commands(S, directory(S, sorted(MODULES)))
    line, want, wrong = ['run'], [], False
    for k, n in enumerate([first, second]):
        if n is None:
            continue
        line.append(n)
        values = dict(DEFAULT[n])
        for t in S.subset('options%d' % k, [t for t in OPTIONS[n] if t != 'lit']):
            v = S.choice('%s%d' % (t, k), TEXT[t])
            line += ['--' + t] + ([v] if v is not None else [])
            bad = v in BAD and (n, v) != ('Bridge', '10')
            wrong = wrong or bad
            if not bad:
                values[t] = CONVERT[t](v)
        want.append((n, values))
    e = S.raises(click.UsageError, lambda: cli.main.main(args=line, prog_name='crowddynamics', standalone_mode=False))
    S.check('wrong values refused', (e is not None) == wrong)
    got = [(type(s).__name__, {t: getattr(s, t) for t in OPTIONS[type(s).__name__]}) for s in RUNS]
    if not wrong:
        S.check('each simulation with its own values, in order', got == want)
    else:
        S.check('no other simulation', got == want[:len(got)] and len(got) < len(want))


@harness(bounds='two simulations in another directory; classes that are no simulations are ignored')
def imported(S):
    modules = S.subset('modules', sorted(MODULES))
    d = directory(S, modules)
    if S.branch(S.bool('other')):
        with open(os.path.join(d, 'other.py'), 'w') as f:
            f.write('from crowddynamics.simulation.multiagent import MultiAgentSimulation\nclass Plain:\n    pass\nHall = 3\nnumber = 4\n')
    got = cli.import_simulations(d)
    S.check('exactly the simulations', sorted(got) == sorted(n for m in modules for n, *_ in MODULES[m]))
    for n, c in got.items():
        S.check('classes', c.__name__ == n and sorted(k for k, _ in class_own_traits(c)) == sorted(OPTIONS[n]))


@harness(bounds='any set of three modules in the working directory; the list command is repeated')
def listing(S):
    modules = S.subset('modules', sorted(MODULES))
    d = directory(S, modules)
    names = [n for m in modules for n, *_ in MODULES[m]]
    old = os.getcwd()
    try:
        os.chdir(d)
        for again in (0, 1):
            with contextlib.redirect_stdout(io.StringIO()) as shown:
                cli.main.main(args=['list'], prog_name='crowddynamics', standalone_mode=False)
            text = shown.getvalue()
            S.check('every simulation listed', all("'%s'" % n in text or ' %s' % n in text or '\n%s' % n in text for n in names))
            S.check('no other simulation', not any(n in text for m in MODULES if m not in modules for n, *_ in MODULES[m]))
    finally:
        os.chdir(old)
