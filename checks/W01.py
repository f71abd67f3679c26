from vf.common import tla
from vf.conform import batched, check_graph
from vf.harness import run_in_loop
from vf.websock import Side

A = (97, 1)
EMPTY = ()


def frame(op, d = (), *, fin = True, rsv = 0, mask = True, n = 0):
    return {'op': op, 'fin': fin, 'rsv': rsv, 'mask': mask, 'n': n, 'd': tuple(d)}


def text(*values, fin = True):
    return frame(1, [(value, 1) for value in values], fin = fin)
def binary(*values, fin = True):
    return frame(2, [(value, 1) for value in values], fin = fin)
def more(*values, fin = True):
    return frame(0, [(value, 1) for value in values], fin = fin)
def end(code, d = ()):
    return frame(8, d, n = code)


BASE = {
    'Frames': [], 'Bursts': [()], 'Ends': ['eof'], 'Sends': [], 'Pings': [], 'Pongs': [], 'Closes': [], 'Ids': ['a', 'b', 'c'],
    'MaxSize': 1000, 'MaxInbox': 1, 'Uses': ['receive'],
}


def run_parts(report, parts, tries = 3):
    def main(driver):
        for name, changed in parts:
            values = BASE | changed
            for role in ('client', 'server'):
                check_graph(
                    report, 'W01', 'W01.cfg', Side(driver, role, values['MaxSize'], values['Ids'], 'pause' not in values['Uses']), name = f'{name} {role}',
                    walks = 40 if report.thorough else 5, walk_length = 40, tries = tries,
                    constants = {key: tla(value) for key, value in values.items()} | {'Role': tla(role)},
                )
    run_in_loop(main)


def parts(deep):
    # Every way of fragmenting, with control frames in between.
    fragments = [
        frame(op, d, fin = fin) for op in (0, 1, 2) for fin in (False, True) for d in (EMPTY, (A,))
    ] + [frame(9, (A,)), frame(10), end(1000)]
    yield 'fragments', {'Frames': fragments, 'MaxInbox': 1, 'MaxSize': 3}
    # Pieces of characters: 1, 2, 3 and 4 byte ones, surrogates, overlong ones, ones too big, stray ones.
    for name, size, pieces in (
        ('short characters', 4 if deep else 3, [(97,), (195,), (169,), (192,), (255,), (128,)]),
        ('three byte characters', 4 if deep else 3, [(97,), (226, 130), (172,), (224,), (159,), (160, 128), (237,)]),
        ('four byte characters', 5 if deep else 4, [(240,), (144,), (143, 128), (244,), (128, 128)]),
    ):
        utf8 = [text(*piece, fin = fin) for piece in pieces for fin in (True, False)] + [more(*piece, fin = fin) for piece in pieces for fin in (False, True)]
        yield name, {'Frames': utf8, 'MaxInbox': 0, 'MaxSize': size, 'Ids': ['a'], 'Ends': []}
    # Whatever is against the rules.
    bad = [
        frame(op, d, fin = fin, rsv = rsv, mask = mask)
        for op in (0, 1, 2, 3, 7, 9, 10, 11, 15) for fin in (True, False) for rsv in (0, 1, 4) for mask in (True, False) for d in (EMPTY, (A,))
        if (rsv == 0) + mask + fin + (d == EMPTY) > (0 if deep else 1)
    ] + [
        end(code, reason) for code in (-2, -1, 0, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1100, 2999, 3000, 4999, 5000, 65535)
        for reason in ((EMPTY, (A,)) if code >= 0 else (EMPTY,))
    ] + [
        end(1000, ((195, 1), (169, 1))), end(1000, ((195, 1),)), end(4000, ((97, 123),)), end(4000, ((97, 124),)), end(1005, ((255, 1),)),
        frame(8, fin = False, n = 1000), frame(8, rsv = 2, n = 1000), frame(8, mask = False, n = 1000),
        frame(9, ((97, 125),)), frame(9, ((97, 126),)), frame(10, ((97, 126),)), frame(9, ((97, 70000),)), frame(10, ((0, 125),)),
    ]
    yield 'rules', {'Frames': bad, 'MaxInbox': 0, 'Ids': ['a'], 'MaxSize': 2, 'Uses': ['receive', 'expire'], 'Closes': [(1000, EMPTY)]}
    # Sizes around which their writing changes, and around the greatest allowed.
    sizes = (0, 1, 2, 3, 4, 5, 124, 125, 126, 127, 128, 32767, 32768, 65534, 65535, 65536, 65537)
    frames = [frame(op, ((97, size),) if size else ()) for op in (1, 2) for size in sizes]
    frames += [frame(op, ((97, size),), fin = fin) for op, fin in ((2, False), (0, True)) for size in (125, 126, 65535, 65536)]
    frames.append(frame(9, ((97, 100),)))
    yield 'sizes', {
        'Frames': frames, 'MaxInbox': 0, 'MaxSize': 65536, 'Ids': ['a', 'b'],
        'Sends': [(kind, ((97, size),) if size else ()) for kind in ('text', 'binary') for size in sizes] + [('text', ((226, 1), (130, 1), (172, 1))), ('binary', ((255, 1), (0, 3)))],
        'Pongs': [((97, size),) if size else () for size in (0, 1, 125, 126)], 'Pings': [((97, size),) for size in (125, 126)],
    }
    # Pings and pongs
    datas = [EMPTY, (A,), ((200, 2),), ((0, 4),)]
    yield 'pings', {
        'Frames': [frame(op, d) for op in (9, 10) for d in datas] + [frame(2, (A,), fin = False), end(-1)], 'Pings': datas, 'Pongs': datas[1:3], 'Uses': [],
    }
    # Many frames arriving at once
    few = [text(97), text(97, fin = False), more(195), frame(9, (A,)), end(1001, (A,)), binary(1)]
    bursts = [(), *((one, other) for one in few for other in few)]
    if deep:
        bursts += [(one, other, third) for one in few for other in few for third in few]
    yield 'bursts', {'Frames': few, 'Bursts': bursts, 'Ends': ['-', 'eof', 'lost', 'reset'], 'MaxInbox': 1, 'Ids': ['a', 'b']}


@batched
def run(report):
    run_parts(report, parts(report.thorough), 3 if report.thorough else 1)
