"""Runs TLC. The specification directory is copied into a scratch directory, so nothing is written into /verif."""
import hashlib, json, os, pickle, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPECS = os.path.join(VERIF, 'specs')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class ModelViolation(Exception):
    """TLC found that the specification itself violates an invariant."""


class TLCResult:
    __slots__ = ('generated', 'distinct', 'depth', 'lines', 'output')


class _Scratch:
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix = 'vf_tlc_')

    def __enter__(self):
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors = True)


def run_tlc(module, config, *, workers = 1, timeout = 600, files = None, constants = None, heap = '6g', simulate = None,
        line_prefix = '"'):
    """
    `config` is either the name of a file in specs/ or the text of a configuration.
    `constants` is a dictionary of `NAME = value` lines appended to the configuration.
    `files` is `name -> text` of additional files placed beside the specification.
    """
    with _Scratch() as scratch:
        for name in os.listdir(SPECS):
            if name.endswith('.tla'):
                shutil.copy(os.path.join(SPECS, name), scratch)
        if '\n' in config:
            text = config
        else:
            with open(os.path.join(SPECS, config)) as file:
                text = file.read()
        if constants:
            # expressions go into a module of their own, configurations accept only few of them
            wrapper = 'MC__' + module
            text += '\nCONSTANTS\n' + '\n'.join(f'  {k} <- mc_{k}' for k in constants) + '\n'
            if files is None:
                files = {}
            files = {**files, wrapper + '.tla': (
                f'---- MODULE {wrapper} ----\nEXTENDS {module}\n' +
                '\n'.join(f'mc_{k} == {v}' for k, v in constants.items()) + '\n====\n'
            )}
            module = wrapper
        with open(os.path.join(scratch, 'run.cfg'), 'w') as file:
            file.write(text)
        for name, content in (files or {}).items():
            with open(os.path.join(scratch, name), 'w') as file:
                file.write(content)
        out_path = os.path.join(scratch, 'out.txt')
        command = [
            'java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={scratch}', '-cp', JARS, 'tlc2.TLC',
            '-workers', str(workers), '-metadir', os.path.join(scratch, 'meta'), '-config', 'run.cfg', '-noGenerateSpecTE',
        ]
        if simulate:
            command += simulate
        command.append(module + '.tla')
        # The clock of this process might be a fake one, so the time limit is kept by an other process.
        with open(out_path, 'w') as out:
            process = subprocess.Popen(
                ['timeout', '-s', 'KILL', str(timeout), *command], cwd = scratch, stdout = out, stderr = subprocess.STDOUT,
                stdin = subprocess.DEVNULL,
            )
            process.wait()
        if process.returncode in (124, 137, -9):
            raise MachineryError(f'TLC was stopped after {timeout}s (or for its memory) on {module}')
        lines = []
        rest = []
        with open(out_path, errors = 'replace') as file:
            for line in file:
                if line.startswith(line_prefix):
                    lines.append(line)
                else:
                    rest.append(line)
        rest = ''.join(rest)
        result = TLCResult()
        result.lines = lines
        result.output = rest
        match = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', rest)
        if match:
            result.generated = int(match[-1][0].replace(',', ''))
            result.distinct = int(match[-1][1].replace(',', ''))
        else:
            result.generated = result.distinct = 0
        match = re.search(r'depth of the complete state graph search is (\d+)', rest)
        result.depth = int(match.group(1)) if match else 0
        if process.returncode != 0:
            head = '\n'.join(
                line for line in rest.splitlines() if line.strip() and not line.startswith(('Parsing file', 'Semantic processing'))
            )[-6000:]
            if process.returncode in (10, 11, 12, 13) or 'is violated' in rest:
                raise ModelViolation(f'{module}: {head}')
            raise MachineryError(f'TLC failed on {module} with {process.returncode}: {head}')
        return result


def _freeze(value):
    if isinstance(value, list):
        return tuple(_freeze(v) for v in value)
    if isinstance(value, dict):
        return tuple(sorted((k, _freeze(v)) for k, v in value.items()))
    return value


freeze = _freeze


class Graph:
    """
    The labelled transition graph of a specification, as printed by its `Emit` action constraint.
    Edges are `(source, op, args, result, target)`, `obs[target]` is the observation of a state.
    """
    def __init__(self):
        self.index = {}
        self.obs = []
        self.edges = []
        self.out = []
        self.initial = set()
        self.states = 0
        self.transitions = 0

    def node(self, frozen):
        number = self.index.get(frozen)
        if number is None:
            number = len(self.obs)
            self.index[frozen] = number
            self.obs.append(None)
            self.out.append([])
        return number


def explore(module, config, *, constants = None, timeout = 600):
    directory = os.environ.get('VF_CACHE') # only for trying many changes of the code
    if not directory:
        return _explore(module, config, constants, timeout)
    digest = hashlib.sha1(repr((module, config, sorted((constants or {}).items()))).encode())
    for name in sorted(os.listdir(SPECS)):
        with open(os.path.join(SPECS, name), 'rb') as file:
            digest.update(file.read())
    path = os.path.join(directory, digest.hexdigest())
    if os.path.exists(path):
        with open(path, 'rb') as file:
            return pickle.load(file)
    graph = _explore(module, config, constants, timeout)
    with open(f'{path}.{os.getpid()}', 'wb') as file:
        pickle.dump(graph, file)
    os.replace(f'{path}.{os.getpid()}', path)
    return graph


def _explore(module, config, constants, timeout):
    result = run_tlc(module, config, constants = constants, timeout = timeout)
    graph = Graph()
    seen = set()
    cache = {}
    for line in result.lines:
        data = json.loads(json.loads(line))
        source = graph.node(_freeze(data['f']))
        target = graph.node(_freeze(data['t']))
        if data['i']:
            graph.initial.add(source)
        graph.obs[target] = data['o'] if 'o' in data else data['t']
        action = data['a']
        edge = (source, action['op'], _freeze(action['a']), _freeze(action['r']), target)
        if edge in seen:
            continue
        seen.add(edge)
        graph.out[source].append(len(graph.edges))
        graph.edges.append(edge + (action['a'], action['r']))
    graph.states = result.distinct
    graph.transitions = result.generated
    if not graph.edges:
        raise MachineryError(f'{module}: no transitions emitted\n{result.output[-3000:]}')
    return graph


TRACE_TEMPLATE = '''---- MODULE {name} ----
EXTENDS {module}, Json
TraceData == JsonDeserialize("traces.json")
VARIABLES ti, l
TraceVars == <<vars, ti, l>>
TraceInit == Init /\\ ti \\in 1..Len(TraceData) /\\ l = 1
TraceNext ==
  /\\ l <= Len(TraceData[ti])
  /\\ LET e == TraceData[ti][l] IN Step(e.op, e.a) /\\ act'.r = e.r /\\ Ob' = e.o
  /\\ l' = l + 1
  /\\ ti' = ti
TraceSpec == TraceInit /\\ [][TraceNext]_TraceVars
TraceReached == PrintT(ToJson([ti |-> ti, l |-> l]))
====
'''


def validate_traces(module, traces, *, invariants = (), constants = None, timeout = 600, template = TRACE_TEMPLATE,
        extra_config = ''):
    """
    Each trace is a list of events `{op, a, r, o}`. Returns `(failures, tlc_result)`, where failures is a list of
    `(trace index, matched event count)`.
    """
    name = module + 'Trace__'
    config = (
        'SPECIFICATION TraceSpec\nCONSTRAINT TraceReached\nCHECK_DEADLOCK FALSE\n' +
        ''.join(f'INVARIANT {i}\n' for i in invariants) + extra_config + '\n'
    )
    result = run_tlc(
        name, config, constants = constants, timeout = timeout,
        files = {'traces.json': json.dumps(traces), name + '.tla': template.format(name = name, module = module)},
    )
    reached = [0] * len(traces)
    for line in result.lines:
        data = json.loads(json.loads(line))
        index = data['ti'] - 1
        reached[index] = max(reached[index], data['l'] - 1)
    failures = [(i, reached[i]) for i in range(len(traces)) if reached[i] < len(traces[i])]
    return failures, result
