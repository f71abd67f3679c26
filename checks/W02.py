import importlib.util
import os

from vf.conform import batched

spec = importlib.util.spec_from_file_location('W01', os.path.join(os.path.dirname(__file__), 'W01.py'))
W01 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(W01)
A, EMPTY, end, frame, text = W01.A, W01.EMPTY, W01.end, W01.frame, W01.text
BASE = W01.BASE


def parts(deep):
    bad = frame(2, (A,), rsv = 1)
    # Who closes it, and with what.
    yield 'closing', {
        'Frames': [text(97), frame(9, (A,)), end(1000), end(4000, ((98, 2),)), end(-1), bad], 'Bursts': [()], 'Ends': ['eof', 'lost', 'reset'],
        'Sends': [('text', (A,))], 'Pings': [(A,)], 'Pongs': [(A,)] if deep else [],
        'Closes': [(1000, EMPTY), (4000, ((99, 3),)), (999, EMPTY), (1005, EMPTY), (3000, ((99, 123),)), (3000, ((99, 124),))],
        'MaxInbox': 1 if deep else 0, 'Uses': ['receive', 'expire', 'cancel'], 'Ids': ['a', 'b', 'c'] if deep else ['a', 'b'],
    }
    # The end of the connection comes along with frames.
    few = [text(97), frame(9, (A,)), end(1000), bad]
    yield 'ends', {
        'Frames': few, 'Bursts': [(), *((one,) for one in few), *((one, other) for one in few for other in few)], 'Ends': ['eof', 'lost', 'reset', '-'],
        'Sends': [('binary', (A,))], 'Pings': [(A,)], 'Closes': [(1000, EMPTY)], 'MaxInbox': 1, 'Uses': ['receive', 'expire'] if deep else ['expire'], 'Ids': ['a', 'b'],
    }
    # What is sent has to wait.
    yield 'waiting', {
        'Frames': [text(97), end(1001), bad], 'Bursts': [()], 'Ends': ['eof', 'lost', 'reset'], 'Sends': [('text', (A,)), ('binary', ((98, 1),))],
        'Closes': [(1000, EMPTY)], 'MaxInbox': 0, 'Uses': ['receive', 'expire', 'pause', 'cancel'] if deep else ['expire', 'pause'], 'Ids': ['a', 'b', 'c'],
    }
    # And its sender gets cancelled meanwhile.
    yield 'given up', {
        'Frames': [end(1001)], 'Bursts': [()], 'Ends': ['lost'], 'Sends': [('text', (A,))],
        'Closes': [(1000, EMPTY)], 'MaxInbox': 0, 'Uses': ['pause', 'cancel', 'expire'] if deep else ['pause', 'cancel'], 'Ids': ['a', 'b', 'c'],
    }
    yield 'pings', {
        'Frames': [frame(op, d) for op in (9, 10) for d in (EMPTY, (A,))] + [end(-1)], 'Pings': [EMPTY, (A,)], 'Uses': ['cancel', 'expire'], 'Closes': [(1000, EMPTY)],
    }


@batched
def run(report):
    W01.run_parts(report, parts(report.thorough))
