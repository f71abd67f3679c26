"""
Replays the transition graph of a specification on the real code.

An adapter has
    reset()              create fresh objects
    do(op, args)         perform an action of the specification; returns its (json) result
    observe()            the projection of the real state, shaped like the specification's `Ob`
    close()              dispose the objects (must leave nothing behind in the loop)
"""
import gc, random
from collections import deque
from concurrent.futures import ThreadPoolExecutor
from contextlib import contextmanager

from . import progress
from .report import Violation
from .tlc import freeze


class Conformance:
    def __init__(self, graph, adapter, report, seed, name, max_length = 40, tries = 3):
        self.graph = graph
        self.adapter = adapter
        self.report = report
        self.random = random.Random(seed * 7919 + 13)
        self.name = name
        self.max_length = max_length
        self.tries = tries
        self.covered = set()
        self.frozen_obs = [None if o is None else freeze(o) for o in graph.obs]
        # group out edges by (op, args)
        self.by_action = []
        for edges in graph.out:
            grouped = {}
            for number in edges:
                edge = graph.edges[number]
                grouped.setdefault((edge[1], edge[2]), []).append(number)
            self.by_action.append(grouped)
        self.paths = 0
        self.steps = 0
        self._compute_tree()

    def _compute_tree(self):
        graph = self.graph
        parent = {}
        queue = deque()
        for node in sorted(graph.initial):
            parent[node] = None
            queue.append(node)
        while queue:
            node = queue.popleft()
            for number in graph.out[node]:
                target = graph.edges[number][4]
                if target not in parent:
                    parent[target] = number
                    queue.append(target)
        self.parent = parent

    def path_to(self, node):
        path = []
        while True:
            number = self.parent[node]
            if number is None:
                break
            path.append(number)
            node = self.graph.edges[number][0]
        path.reverse()
        return path

    # ---- running

    def begin(self):
        progress.begin([], f'{self.name}: reset')
        try:
            self.adapter.reset()
        finally:
            progress.end()
        self.current = set(self.graph.initial)
        self.history = []
        self.adapter.history = self.history
        self.paths += 1

    def end(self):
        progress.begin(self.history, f'{self.name}: close')
        try:
            self.adapter.close()
        finally:
            progress.end()

    def act(self, op, args, frozen_args):
        """Performs an action on the code and follows the specification. Raises Violation."""
        history = self.history
        entry = [op, args]
        history.append(entry)
        progress.begin(history, f'{self.name}: {op}{args}')
        try:
            result = self.adapter.do(op, args)
            observation = self.adapter.observe()
        except Violation:
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as exception:
            import traceback
            raise Violation(
                f'{self.name}: {op}{args} raised {type(exception).__name__}: {exception}', list(history),
                traceback = traceback.format_exc(),
            )
        finally:
            progress.end()
        entry.append(result)
        entry.append(observation)
        self.steps += 1
        frozen_result = freeze(result)
        frozen_observation = freeze(observation)
        after = set()
        candidates = []
        edges = self.graph.edges
        frozen_obs = self.frozen_obs
        for node in self.current:
            for number in self.by_action[node].get((op, frozen_args), ()):
                edge = edges[number]
                if edge[3] == frozen_result and frozen_obs[edge[4]] == frozen_observation:
                    after.add(edge[4])
                    self.covered.add(number)
                else:
                    candidates.append(number)
        if not after:
            allowed = [
                {'result': edges[n][6], 'state': self.graph.obs[edges[n][4]]} for n in candidates[:6]
            ]
            raise Violation(
                f'{self.name}: {op}{args} -> result {result!r}, state {observation!r}; '
                f'the specification allows {allowed!r}; history: '
                f'{[h[:3] for h in history]!r}',
                list(history), allowed = allowed,
            )
        self.current = after

    def run_path(self, numbers, extend = True):
        self.begin()
        try:
            for number in numbers:
                edge = self.graph.edges[number]
                if not self._can(number):
                    break # nondeterminism took an other way
                self.act(edge[1], edge[5], edge[2])
            if extend:
                while len(self.history) < self.max_length:
                    choice = None
                    for node in sorted(self.current):
                        for number in self.graph.out[node]:
                            if number not in self.covered and number not in self.given_up and self._can(number):
                                choice = number
                                break
                        if choice is not None:
                            break
                    if choice is None:
                        break
                    edge = self.graph.edges[choice]
                    self.act(edge[1], edge[5], edge[2])
                    if choice not in self.covered:
                        self.attempts[choice] = self.attempts.get(choice, 0) + 1
                        if self.attempts[choice] >= self.tries:
                            self.given_up.add(choice)
        finally:
            self.end()

    # Where the code might be in more states, only what can be done in each of them is done.

    def _can(self, number):
        edge = self.graph.edges[number]
        key = (edge[1], edge[2])
        return all(key in self.by_action[node] for node in self.current)

    def _enabled(self):
        first, *others = self.current
        return {key for key in self.by_action[first] if all(key in self.by_action[node] for node in others)}

    def cover(self, deadline = None):
        """Covers every transition (as far as nondeterminism lets)."""
        import time
        self.given_up = set()
        self.attempts = {}
        order = list(range(len(self.graph.edges)))
        for number in order:
            if number in self.covered or number in self.given_up:
                continue
            source = self.graph.edges[number][0]
            for _ in range(self.tries):
                self.run_path(self.path_to(source) + [number])
                if number in self.covered:
                    break
            else:
                self.given_up.add(number)
            if deadline is not None and time.perf_counter() > deadline:
                return False
        return True

    def walk(self, count, length):
        """Random walks."""
        for _ in range(count):
            self.begin()
            try:
                for _ in range(length):
                    enabled = sorted(self._enabled(), key = repr)
                    if not enabled:
                        break
                    op, frozen_args = self.random.choice(enabled)
                    args = None
                    for node in self.current:
                        numbers = self.by_action[node].get((op, frozen_args))
                        if numbers:
                            args = self.graph.edges[numbers[0]][5]
                            break
                    self.act(op, args, frozen_args)
            finally:
                self.end()


_batch = None


@contextmanager
def batch(workers = 4):
    """`check_graph` calls inside are put off till the end; their specifications are explored in parallel."""
    global _batch
    from .tlc import explore
    _batch = calls = []
    try:
        yield
    finally:
        _batch = None
    with ThreadPoolExecutor(workers) as pool:
        graphs = [
            pool.submit(explore, args[1], args[2], constants = kwargs.get('constants')) for args, kwargs in calls
        ]
        try:
            for (args, kwargs), graph in zip(calls, graphs):
                check_graph(*args, **kwargs, graph = graph.result())
        finally:
            for graph in graphs:
                graph.cancel()


def batched(function):
    def run(*args):
        with batch():
            function(*args)
    return run


def check_graph(report, module, config, adapter, *, constants = None, name = None, walks = 0, walk_length = 60,
        max_length = 40, deadline_s = None, tries = 3, graph = None):
    """Explores a specification and replays every transition on the code."""
    import time
    from .tlc import explore
    if name is None:
        name = module
    if graph is None:
        if _batch is not None:
            _batch.append((
                (report, module, config, adapter),
                {
                    'constants': constants, 'name': name, 'walks': walks, 'walk_length': walk_length,
                    'max_length': max_length, 'deadline_s': deadline_s, 'tries': tries,
                },
            ))
            return None
        graph = explore(module, config, constants = constants)
    conformance = Conformance(graph, adapter, report, report.seed, name, max_length, tries)
    gc.collect()
    gc.freeze() # collecting garbage between steps does not have to go through the graph
    started = time.perf_counter()
    try:
        deadline = None if deadline_s is None else started + deadline_s
        complete = conformance.cover(deadline)
        if walks:
            conformance.walk(walks, walk_length)
    except Violation as violation:
        report.violation(violation)
        complete = False
    report.add(
        states = graph.states, transitions = graph.transitions,
        traces_validated_against_impl = conformance.paths,
    )
    report.part(
        name, spec_states = graph.states, spec_transitions = graph.transitions, graph_edges = len(graph.edges),
        edges_replayed = len(conformance.covered), paths = conformance.paths, steps = conformance.steps,
        every_transition_tried = bool(complete), replay_s = round(time.perf_counter() - started, 2),
    )
    if getattr(conformance, 'history', None):
        report.sample({'part': name, 'history': [h[:3] for h in conformance.history[:25]]})
    return conformance
