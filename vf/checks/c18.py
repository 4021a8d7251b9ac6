"""C18: packing a DMD state, against independent bit arithmetic."""
import numpy as np
from vf import opt

RULE = ("each case packs random, structured and single-mirror states of one random device size (also sizes that do not fill whole bytes, "
        "strided, transposed and Fortran ordered arrays, holograms computed by the library) and unpacks them bit by bit; states of other "
        "types must be refused; non-trivial: distinct size and states")
NEED = {"cases": 60, "packed": 400, "mirrors": 100000, "refused": 150, "partial_bytes": 60, "edited_in_place": 300, "large": 3}
PLAN = {"quick": [(32, 1), (64, 1)], "thorough": [(32, 3), (64, 2)]}


def unpack(data, shape):
    n = shape[0] * shape[1]
    bits = [(data[k >> 3] >> (7 - (k & 7))) & 1 for k in range(n)] if n < 3000 else np.unpackbits(np.frombuffer(data, np.uint8))[:n]
    return np.array(bits, dtype=bool).reshape(shape)


def run(ctx):
    P = ctx.P

    def pack(case, dev, st):
        dev.dmd_state = st
        keep = np.array(st)
        data = dev.pack_dmd_state()
        case.true(isinstance(data, bytes), "packing must give bytes", got=type(data))
        n = st.size
        case.equal(len(data), (n + 7) // 8, "number of bytes")
        case.true(np.array_equal(unpack(data, st.shape), keep), "unpacked state differs", differ=int(np.sum(unpack(data, st.shape) != keep)))
        if n % 8:
            case.equal(data[-1] & ((1 << (8 - n % 8)) - 1), 0, "padding bits"); case.event("partial_bytes")
        case.true(dev.dmd_state is st or np.array_equal(dev.dmd_state, keep), "packing changed the state")
        case.true(np.array_equal(st, keep) and dev.dmd_state.dtype == bool, "packing changed the state")
        case.equal(dev.pack_dmd_state(), data, "packing again")
        # edited in place, packed again: the bytes of the mirrors as they are now
        now = dev.dmd_state
        if now.flags.writeable:
            rng = np.random.default_rng(len(data))
            at = tuple(rng.integers(0, n, 2) for n in now.shape)
            now[at] = ~now[at]
            case.true(np.array_equal(unpack(dev.pack_dmd_state(), st.shape), now), "unpacked state differs after an edit in place")
            case.event("edited_in_place")
            now[...] = keep
            case.equal(dev.pack_dmd_state(), data, "packing after the edit was undone")
        case.event("packed"); case.event("mirrors", n)

    def sizes(case):
        rng = case.rng
        g = opt.geometry(rng, 1, 45)
        dev = g.make(P)
        case.note(g.desc())
        case.equal(dev.pack_dmd_state(), bytes((g.Nx * g.Ny + 7) // 8), "a new device packs to zeros")
        sh = (g.Ny, g.Nx)
        one = np.zeros(sh, bool); one[int(rng.integers(g.Ny)), int(rng.integers(g.Nx))] = True
        first = np.zeros(sh, bool); first[0, 0] = True
        last = np.zeros(sh, bool); last[-1, -1] = True
        for st in (rng.random(sh) < .5, rng.random(sh) < .05, ~one, one, first, last, np.asfortranarray(rng.random(sh) < .5),
                   (rng.random((g.Nx, g.Ny)) < .5).T, (rng.random((2 * g.Ny, 3 * g.Nx)) < .5)[::2, ::-3][:, :g.Nx], np.indices(sh).sum(0) % 2 == 0):
            pack(case, dev, st)
        dev.set_dmd_state_on()
        case.equal(unpack(dev.pack_dmd_state(), sh).all(), True, "all on")
        dev.set_dmd_state_off()
        case.equal(dev.pack_dmd_state(), bytes((g.Nx * g.Ny + 7) // 8), "all off")
        for st in (rng.random(sh), np.ones(sh, int), np.ones(sh, np.uint8), np.zeros(sh, np.float32), np.ones(sh, complex)):
            dev.dmd_state = st
            case.raises(TypeError, dev.pack_dmd_state, f"a state of type {st.dtype} must be refused")
            case.true(np.array_equal(dev.dmd_state, st), "a refused packing changed the state"); case.event("refused")

    ctx.each("sizes", ctx.n(40, 600), sizes)

    def computed(case):
        rng = case.rng
        g = opt.geometry(rng, 6, 40)
        dev = g.make(P)
        case.note("computed", g.desc())
        for method in ("simple", "random"):
            dev.set_dmd_grating_state(.9, 0, 0, method=method)
            pack(case, dev, dev.dmd_state)
            dev.circular_patch(3, 4, .5, 0, 0, 7, method="simple")
            pack(case, dev, dev.dmd_state)
        dev.set_dmd_grating_state(.9, 0, 0, method="ideal")
        case.raises(TypeError, dev.pack_dmd_state, "a gray-scale state must be refused"); case.event("refused")

    ctx.each("computed", ctx.n(8, 60), computed)

    def models(case):
        rng = case.rng
        if case.index % 6 > 2:
            g = opt.large(rng, case.index + 3 * ctx.seed)
            dev = g.make(P)
            case.note("large", g.desc()); case.event("large")
            for st in (rng.random((dev.Ny, dev.Nx)) < .5, np.asfortranarray(rng.random((dev.Ny, dev.Nx)) < .1)): pack(case, dev, st)
            return
        name = ["DLP9500", "DLP7000", "DLP9000"][case.index % 3]
        dev = getattr(P, name)(4e-7, .2, 4, .7)
        case.note(name)
        for _ in range(2): pack(case, dev, rng.random((dev.Ny, dev.Nx)) < .5)

    ctx.each("models", ctx.n(6, 24), models)
