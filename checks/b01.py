"""B01: sequential unformatted (Fortran) record files."""
import struct
from lib.harness import *
from pyhipp.io.binary.fortran import BinaryFile

ck = Check('B01', 'Files of 0-7 records, marked sections and raw byte runs (17 element types incl. big-endian, structured and sub-array types; 0-6 elements or a '
           'scalar), read by generated interleavings of load, skip, load_bytes and seek; single corruptions (marker changed, file cut, wrong size). '
           'Non-trivial: at least one load after a skip, or a corruption inside a section.')
DT = ['f8', 'f4', 'i8', 'i4', 'i2', 'i1', 'u8', 'u4', '?', 'c16', 'S5', '>i4', '>f8', 'float32', 'struct', 'sub', 'pytype']
item = st.tuples(st.sampled_from(['rec', 'rec', 'sect', 'sect', 'sect', 'bytes']), st.sampled_from(DT), pick(st.none(), (5, st.integers(0, 6)), st.integers(0, 40)),
                 st.integers(0, 250))
act = st.sampled_from(['load', 'skip'])


def dtype_of(name, form=0):
    if name == 'struct':
        return np.dtype([('a', 'i4'), ('b', 'f8'), ('c', 'S3')])
    if name == 'sub':
        return np.dtype(('f4', (3,)))
    if name == 'pytype':
        return (float, int, np.float32, np.int64, bool)[form % 5]
    if name == 'float32':
        return 'float32'
    return np.dtype(name) if form % 2 else name


def content(it):
    """bytes of the payload and the value a load returns"""
    kind, dt, n, s = it
    if kind == 'bytes':
        b = bytes((s + 37 * i) % 256 for i in range(n or 0))
        return b, b
    d = np.dtype(dtype_of(dt, s))
    m = 1 if n is None else n
    raw = bytes((s * 7 + 31 * i + (i * i) % 13) % 256 for i in range(m * d.itemsize))
    if d.kind == 'b':
        raw = bytes(x % 2 for x in raw)
    a = np.frombuffer(raw, dtype=d.base if d.subdtype else d)
    if d.subdtype:
        a = a.reshape((m,) + d.shape)
    return raw, (a[0] if n is None else a)


def encode(items):
    out, starts = b'', []
    for it in items:
        starts.append(len(out))
        p = content(it)[0]
        out += struct.pack('<i', len(p)) + p + struct.pack('<i', len(p)) if it[0] == 'sect' else p
    return out, starts + [len(out)]


def bits_eq(got, ref, it):
    g, r = np.asarray(got), np.asarray(ref)
    assert g.shape == r.shape, f'shape {g.shape} != {r.shape}'
    assert g.dtype == r.dtype, f'dtype {g.dtype} != {r.dtype}'
    assert g.tobytes() == r.tobytes(), f'{short(g)} != {short(r)}'
    if it[2] is None:
        assert np.ndim(got) == np.ndim(ref), 'a scalar record is returned as a scalar'
    else:
        assert isinstance(got, np.ndarray)


def do(f, it, a):
    kind, dt, n, s = it
    if kind == 'bytes':
        if a == 'skip':
            f.seek(n or 0, 1)
        else:
            got = f.load_bytes(n or 0)
            assert got == content(it)[1]
        return
    dt = dtype_of(dt, s)
    kw = {} if n is None and s % 2 else dict(n=n if n is None else (int, int, np.int32, np.int8, np.uint8, np.int64)[s % 6](n))
    if a == 'load':
        got = (f.load_sect if kind == 'sect' else f.load_rec)(dt, **kw)
        bits_eq(got, content(it)[1], it)
    else:
        (f.skip_sect if kind == 'sect' else f.skip_rec)(dt, **kw)


def opened(path, how):
    return BinaryFile(path, **({}, dict(mode='rb'), dict(open_kw={'buffering': 0}))[how])


@ck.test(examples=1500, shards=2, items=sized_lists(item, 0, 7), acts=st.lists(act, min_size=7, max_size=7), how=st.integers(0, 2), path=st.booleans(),
         jumps=st.lists(st.tuples(st.integers(0, 7), st.integers(0, 2), act), max_size=4))
def sequences(items, acts, how, path, jumps):
    from pathlib import Path
    blob, starts = encode(items)
    with scratch() as d:
        p = f'{d}/f.bin'
        with open(p, 'wb') as fp:
            fp.write(blob)
        with opened(Path(p) if path else p, how) as f:
            for i, it in enumerate(items):
                do(f, it, acts[i])
                assert f.seek(0, 1) == starts[i + 1], f'position {f.seek(0, 1)} != {starts[i+1]} after item {i} {it} {acts[i]}'
            assert f.load_bytes() == b'', 'not at the end'
            for j, wh, a in jumps:
                if items:
                    j %= len(items)
                    assert f.seek({0: starts[j], 1: starts[j] - f.seek(0, 1), 2: starts[j] - len(blob)}[wh], wh) == starts[j]
                    do(f, items[j], a)
                    assert f.seek(0, 1) == starts[j + 1]
            f.seek(0)
            assert f.load_bytes() == blob
            f.to_simple_repr(), str(f)
        raises(ValueError, f.load_bytes, msg='closed file')
        with open(p, 'rb') as fp:
            assert fp.read() == blob, 'the file changed'
    used = acts[:len(items)]
    return any(a == 'skip' and b == 'load' for a, b in zip(used, used[1:]))


ERR = (AssertionError, ValueError, IndexError, OSError, EOFError, RuntimeError)


@ck.test(examples=2000, shards=2, pre=sized_lists(item, 0, 2), it=item, post=sized_lists(item, 0, 2), fault=st.sampled_from(['lead', 'trail', 'cut', 'size', 'size']),
         amount=st.integers(1, 2**31 - 1) | st.sampled_from([1, 2, 4, 256, 1 << 24, 1 << 31]), a=act, dn=st.integers(-4, 4), how=st.integers(0, 2))
def corrupted(pre, it, post, fault, amount, a, dn, how):
    """One damaged marker, a cut file or a wrong requested size is an error, for loads and skips alike."""
    it = ('sect',) + it[1:]
    blob, starts = encode(pre + [it] + post)
    i = len(pre)
    s, e = starts[i], starts[i + 1]
    b = bytearray(blob)
    n = it[2]
    ask = n
    if fault in ('lead', 'trail'):
        o = s if fault == 'lead' else e - 4
        m = struct.unpack('<I', b[o:o + 4])[0] ^ (amount & 0xffffffff)
        b[o:o + 4] = struct.pack('<I', m)
    elif fault == 'cut':
        b = b[:s + amount % (e - s)]
    else:
        ask = max(0, (1 if n is None else n) + (dn or 1))
        if ask == (1 if n is None else n):
            return False        # nothing wrong
    with scratch() as d_:
        p = f'{d_}/f.bin'
        with open(p, 'wb') as fp:
            fp.write(b)
        with opened(p, how) as f:
            for x in pre:
                do(f, x, 'skip')
            assert f.seek(0, 1) == s
            raises(ERR, f.load_sect if a == 'load' else f.skip_sect, dtype_of(it[1], it[3]), n=ask, msg=f'{fault} {a} {it}')
    ck.label(fault)
    return True


@ck.test(examples=600, dt=st.sampled_from([d for d in DT if d != 'pytype']), n=st.integers(0, 12), ask=pick((4, st.integers(0, 12)), st.none(), (2, st.just('span'))), a=act, s=st.integers(0, 250), twin=st.booleans())
def lookalike(dt, n, ask, a, s, twin):
    """A wrong size is refused even where the bytes found there equal the leading marker: inside the payload, or at the end of a later section of the same size."""
    d = np.dtype(dtype_of(dt, s))
    L = n * d.itemsize
    if ask == 'span':          # up to the end of the next section, of the same size
        if not L or (L + 8) % d.itemsize:
            ask = n + 1
        else:
            ask = 2 * n + 8 // d.itemsize
            twin = True
    size = d.itemsize * (1 if ask is None else ask)
    if size == L or d.kind == 'b':
        return False
    sect = struct.pack('<i', L) + bytes((s + i) % 256 for i in range(L)) + struct.pack('<i', L)
    b = bytearray(sect * 2 if twin else sect)
    b += bytes(max(0, 8 + size - len(b)))
    b[4 + size:8 + size] = struct.pack('<i', L)      # (the first section still ends in its own marker unless overlapped)
    overlap = 4 + L - 3 <= 4 + size < 8 + L
    if overlap:
        return False
    b += sect
    with scratch() as d_:
        p = f'{d_}/f.bin'
        with open(p, 'wb') as fp:
            fp.write(b)
        with opened(p, 0) as f:
            raises(ERR, f.load_sect if a == 'load' else f.skip_sect, dtype_of(dt, s), n=ask, msg=f'size {size} of a section of {L} bytes')
        with opened(p, 0) as f:
            if 4 + size >= 8 + L:
                do(f, ('sect', dt, n, s), 'skip')
                assert f.seek(0, 1) == 8 + L
    return True


@ck.test(examples=150, spec=st.sampled_from(['dir', 'none', 'wmode']))
def opening(spec):
    with scratch() as d:
        if spec == 'none':
            raises(OSError, BinaryFile, f'{d}/none')
        elif spec == 'dir':
            raises(OSError, BinaryFile, d)
        else:
            with open(f'{d}/x', 'wb') as f:
                f.write(b'abc')
            with BinaryFile(f'{d}/x') as f:
                assert f.load_bytes(2) == b'ab' and f.load_bytes(5) == b'c'
    return True


@ck.test(examples=80, n=big_sizes, s=bits64, dt=st.sampled_from(['<i4', '>i4', '<f8', '>f8', '>f4', '<i8', 'i1', '>u2']), skip=st.integers(0, 40_000_000), cols=st.sampled_from([0, 1, 3]))
def large(n, s, dt, skip, cols):
    """Long records of either byte order, and skips over (sparse) stretches of tens of megabytes."""
    g = rng_of(s)
    dt = np.dtype(dt)
    v = g.integers(0, 100, n).astype(dt)
    w = g.integers(0, 100, n + 3).astype(dt)
    k = skip // dt.itemsize
    with scratch() as d:
        p = f'{d}/f'
        with open(p, 'wb') as f:
            f.write(v.tobytes())
            f.seek(k * dt.itemsize, 1)
            f.write(w.tobytes())
        with BinaryFile(p) as f:
            a = f.load_rec(dt, n)
            f.skip_rec(dt, k)
            b = f.load_rec(dt, n + 3)
        eq_arr(a, v, 'first record', dtype=True)
        eq_arr(b, w, 'record after the skip', dtype=True)
        assert a.dtype == dt and b.dtype == dt
    return True
