"""What each property's check favours: weighted profiles for gen.Gen."""

T = lambda **k: dict(dict(E=0, A=0, C=0, U=0, L=0, B=0), **k)
INT = dict(inv=.4, exit=.35)                       # interruptions
LIBT = T(E=2, A=3, C=2, U=1, L=3, B=3)

P = {
    'C01': [
        (3, dict(skip=.2, pre=.25, post=.25, inv=.3, end=.5, exit=.3, rep=.3, unknown=.3, refs=.25, listend=.3)),
        (2, dict(types=T(E=1, A=1, C=1, U=1, L=1), depth=2, kids=(1, 2), maxnodes=3, inv=.5, exit=.5, end=.5,
                 post=.4, rep=.4, pre=.3, skip=.3, start=.5, unknown=.35, steps=(10, 20))),
        (2, dict(types=T(E=1, A=3, C=4, U=2, L=3), inv=.35, exit=.3, listend=.4, unknown=.3, steps=(10, 18))),
    ],
    'C02': [
        (3, dict(post=.4, inv=.35, exit=.3, pre=.3, skip=.2, rep=.25, listend=.3, unknown=.25)),
        (2, dict(types=T(E=2, A=2, C=4, U=2, L=4), post=.4, inv=.35, exit=.35, refs=.7, steps=(10, 18))),
    ],
    'C03': [
        (3, dict(depth=4, types=T(E=2, A=2, C=4, U=2, L=8), maxnodes=14, kids=(1, 3), listend=.45, inv=.3, exit=.3,
                 rep=.3, unknown=.25, steps=(10, 18))),
        (2, dict(depth=3, types=T(E=1, A=2, C=5, U=2, L=5), listend=.6, inv=.3, exit=.35, rep=.4, end=.6, wrongack=.2,
                 steps=(10, 20))),
    ],
    'C04': [
        (3, dict(refs=.8, start=.7, end=.5, maxnodes=14, kids=(2, 5), batch=5, roots=[1, 2])),
        (2, dict(refs=.7, contend=.7, types=T(E=3, A=5, C=2, U=1, L=4), mutex=.4, prio=.3, batch=5)),
        (1, dict(look=.8, args=.6, on=.4, unknown=.25, batch=5, steps=(10, 18))),
    ],
    'C05': [
        (3, dict(types=T(E=1, A=8, C=2, U=1, L=4), nvars=(1, 3), arrays=.3, maxnodes=14, kids=(2, 5), rep=.25)),
        (2, dict(types=T(E=1, A=8, C=3, U=1, L=4), nvars=(2, 3), strings=.2, reals=.4, refs=.4, inv=.25, exit=.2,
                 edepth=3, roots=[1, 2])),
        (1, dict(types=T(E=1, A=7, C=4, L=4), nvars=(1, 2), contend=.8, rep=.4, prio=.4)),
    ],
    'C06': [
        (3, dict(types=T(E=1, A=8, C=1, L=4), nvars=(1, 2), arrays=.35, inv=.6, exit=.6, listend=.3, end=.7, rep=.3,
                 unknown=.3, look=.7, contend=.6)),
        (2, dict(types=T(A=8, C=2, L=4), nvars=(1, 3), inv=.7, exit=.5, refs=.6, rep=.3, depth=4)),
    ],
    'C07': [
        (4, dict(types=T(E=1, A=9, C=1, L=4), nvars=(1, 1), contend=.95, prio=.8, maxnodes=14, kids=(2, 6), end=.6,
                 rep=.35, inv=.2, exit=.2, skip=.15)),
        (2, dict(types=T(A=9, C=1, L=4), nvars=(1, 2), contend=.9, prio=.5, arrays=.5, end=.6, pre=.25, mutex=.3)),
    ],
    'C08': [
        (4, dict(types=T(E=3, A=2, C=3, U=1, L=4), mutex=.8, mutexdecl=.7, prio=.4, maxnodes=14, kids=(2, 6), end=.6,
                 rep=.3, inv=.25, exit=.25)),
        (2, dict(types=T(E=2, A=4, C=2, U=1, L=4), mutex=.9, mutexdecl=.8, prio=.8, contend=.8, roots=[1, 3], end=.6,
                 skip=.15, pre=.2)),
    ],
    'C09': [
        (3, dict(nvars=(1, 3), rep=.45, hide=.35, arrays=.3, types=T(E=2, A=5, C=3, U=1, L=6), depth=4)),
        (2, dict(nvars=(1, 3), rep=.4, hide=.3, strings=.2, reals=.4, lib=1, types=LIBT)),
    ],
    'C10': [
        (3, dict(types=T(E=1, A=2, C=8, L=3), ack=.9, handles=.5, rep=.35, end=.7, arrays=.3, nvars=(1, 2), steps=(10, 20))),
        (2, dict(types=T(E=1, A=2, C=8, L=4), ack=.9, handles=.4, inv=.3, exit=.3, rep=.3, res=.3, steps=(10, 20), batch=5)),
        (1, dict(types=T(A=3, C=8, L=3), args=.6, edepth=3, strings=.3, reals=.4, handles=.3, ack=.9)),
    ],
    'C11': [
        (4, dict(types=T(C=9, A=1, U=2, L=3), inv=.6, exit=.5, rep=.4, end=.8, ack=.9, wrongack=.25, unknown=.25,
                 steps=(12, 22), batch=4)),
        (2, dict(types=T(C=7, U=3, L=5), depth=4, inv=.4, exit=.4, listend=.5, rep=.4, end=.7, ack=.9, wrongack=.2,
                 steps=(12, 22))),
    ],
    'C12': [
        (3, dict(types=T(E=1, A=2, C=8, L=3), res=.8, hier=.6, roots=[1, 2], ack=.9, rep=.3)),
        (2, dict(types=T(C=8, L=3), res=.9, hier=.3, kids=(2, 6), maxnodes=14, amounts=[.5, .25, .5, .75, 1, -.25],
                 rep=.35, inv=.25, exit=.25, ack=.9, steps=(10, 18))),
    ],
    'C13': [
        (4, dict(types=T(U=8, E=1, A=2, C=1, L=3), end=.5, inv=.35, exit=.35, rep=.4, ack=.9, wrongack=.25, unknown=.25,
                 steps=(10, 20), batch=4)),
        (1, dict(types=T(U=7, A=4, L=4), nvars=(1, 2), strings=.3, reals=.4, args=.5, edepth=3, rep=.4)),
    ],
    'C14': [
        (3, dict(look=1, on=.3, args=.7, unknown=.25, pub=1.2, types=T(E=4, A=4, C=2, U=1, L=4), refs=.2, nvars=(1, 2))),
        (2, dict(look=1, on=.5, args=.8, tol=.3, unknown=.25, pub=1.2, rep=.3, roots=[1, 2], nvars=(1, 2), refs=.2)),
    ],
    'C15': [
        (4, dict(look=1, on=.85, tol=.8, reals=.6, args=.3, unknown=.2, pub=1.4, refs=.15, start=.6, end=.6,
                 steps=(10, 20))),
        (1, dict(look=1, on=.7, tol=.7, reals=.6, args=.6, unknown=.3, pub=1.4, rep=.3, roots=[1, 2], nvars=(1, 2))),
    ],
    'C16': [
        (3, dict(edepth=4, refs=.2, unknown=.35, reals=.4, strings=.25, arrops=.1, look=.6)),
        (2, dict(edepth=3, nvars=(1, 3), types=T(E=4, A=6, C=2, U=2, L=4), unknown=.35, reals=.5, strings=.2, refs=.3)),
    ],
    'C17': [
        (3, dict(arrays=.8, nvars=(1, 3), arrops=.4, types=T(E=3, A=8, C=3, L=4), contend=.6, rep=.3, unknown=.2)),
        (2, dict(arrays=.8, nvars=(1, 3), arrops=.5, strings=.3, reals=.5, types=T(E=3, A=7, C=3, L=4, B=2), lib=1)),
    ],
    'C18': [
        (3, dict(refs=.9, timepts=.5, handles=.6, types=T(E=3, A=2, C=5, U=1, L=4), rep=.3, dt=.7, start=.6, end=.5)),
        (2, dict(refs=.9, timepts=.3, handles=.3, skip=.15, pre=.2, post=.3, inv=.25, exit=.2, rep=.3, dt=.6)),
    ],
    'C19': [
        (3, dict(rep=.6, depth=4, types=T(E=3, A=3, C=4, U=2, L=8), maxnodes=14, kids=(1, 3), nvars=(0, 2), timepts=.2,
                 handles=.3, dt=.6, steps=(10, 20))),
        (2, dict(rep=.5, depth=3, refs=.7, timepts=.3, inv=.25, exit=.2, listend=.3, lib=1, types=LIBT)),
    ],
    'C20': [
        (4, dict(types=LIBT, lib=1, nlibs=(1, 3), nvars=(1, 3), arrays=.25)),
        (2, dict(types=T(E=1, A=4, C=2, L=2, B=6), lib=1, nlibs=(1, 2), nvars=(1, 3), arrays=.3, rep=.35, hide=.4,
                 inv=.2, exit=.2, roots=[1, 2])),
    ],
    'C21': [
        (3, dict(batch=8, types=T(E=2, A=2, C=6, U=3, L=4), ack=1, wrongack=.2, roots=[1, 3], steps=(8, 14))),
        (2, dict(batch=8, pub=1.5, look=.9, on=.5, args=.5, unknown=.2, roots=[1, 2])),
    ],
    'C23': [
        (4, dict(roots=[2, 4], maxnodes=6, kids=(1, 3), mutex=.3, types=T(E=3, A=3, C=4, U=1, L=3), steps=(10, 18))),
        (1, dict(roots=[1, 3], maxnodes=8, lib=1, types=LIBT, nlibs=(1, 2), depth=2)),
    ],
    'C24': [
        (3, dict(types=T(E=3, A=6, C=2, U=1, L=4), nvars=(1, 3), rep=.3, arrays=.3)),
        (2, dict(roots=[1, 3], lib=1, types=LIBT, inv=.25, exit=.25, rep=.25)),
    ],
}

# Directed shapes (templates.py), as a share of each property's scenarios
D = dict(reals=.3, strings=.2, edepth=2, lib=1, idle=.6, steps=(8, 16))
SHAPES = {
    'C01': ['finish', 'finishing', 'command', 'observe', 'update', 'chain', 'scope', 'mutex'],
    'C02': ['finish', 'finishing', 'observe', 'command', 'update', 'assign'],
    'C03': ['finish', 'finish', 'finishing', 'finishing', 'observe', 'scope', 'command'],
    'C04': ['chain', 'chain', 'observe', 'mutex', 'roots', 'contend'],
    'C05': ['assign', 'contend', 'scope', 'calc'],
    'C06': ['assign', 'assign', 'assign', 'contend', 'mutex'],
    'C07': ['contend', 'contend', 'assign', 'mutex'],
    'C08': ['mutex', 'mutex', 'roots'],
    'C09': ['scope', 'scope', 'lookup', 'library'],
    'C10': ['command', 'command', 'resource', 'observe'],
    'C11': ['command', 'command', 'finish', 'finishing'],
    'C12': ['resource'],
    'C13': ['update', 'update', 'finish'],
    'C14': ['lookup', 'lookup', 'calc', 'chain'],
    'C15': ['lookup'],
    'C16': ['calc', 'calc', 'chain'],
    'C17': ['calc', 'scope', 'assign'],
    'C18': ['observe', 'observe', 'command', 'chain'],
    'C19': ['scope', 'finish', 'finishing', 'observe', 'update', 'command'],
    'C20': ['library'],
    'C21': ['lookup', 'command', 'update', 'roots'],
    'C23': ['roots'],
    'C24': ['assign', 'scope', 'roots', 'library'],
}
MORE = {
    'C06': dict(unknown=.35),
    'C18': dict(timepts=.3, dt=.7), 'C12': dict(res=1, hier=.6, ack=.9), 'C15': dict(tol=.8, on=.85, pub=1.4, unknown=.2),
    'C17': dict(arrays=.8, arrops=.5), 'C16': dict(unknown=.3, edepth=4), 'C21': dict(batch=8, ack=1),
    'C11': dict(ack=.9, wrongack=.25, batch=4), 'C13': dict(ack=.9, wrongack=.25), 'C10': dict(ack=.9),
}
for _p, _s in SHAPES.items():
    _w = sum(w for w, _ in P[_p])
    P[_p].append((_w * .75, dict(D, template=_s, **MORE.get(_p, {}))))
