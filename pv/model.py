"""Reference model pieces: values, boxes, partitions, and script generation."""
import itertools, struct

M64 = (1 << 64) - 1
TYPES = {"char": (1, "i"), "int32": (4, "i"), "int64": (8, "i"), "uchar": (1, "u"), "uint32": (4, "u"), "uint64": (8, "u"),
         "float": (4, "f"), "double": (8, "f")}
NONE, PRESERVE, INIT = 0, 1, 2
RO_NONE, SUM, PROD, MIN, MAX, AND, OR, RO_ANY, RO_SINGLE = range(9)
PF_GROUP, PF_COMPACT, PF_NOCOVER, PF_MERGE, PF_SINGLE = 1, 2, 4, 8, 16


def mix(seed, i0, i1, i2, who):
    h = (seed * 0x9E3779B97F4A7C15 + i0 * 0xBF58476D1CE4E5B9 + i1 * 0x94D049BB133111EB
         + i2 * 0xD6E8FEB86659FD93 + who * 0xA0761D6478BD642F) & M64
    h ^= h >> 29
    h = (h * 0xff51afd7ed558ccd) & M64
    h ^= h >> 32
    return h


def wrap(ty, v):
    size, k = TYPES[ty]
    if k == "f":
        return v
    v &= (1 << (8 * size)) - 1
    if k == "i" and v >> (8 * size - 1):
        v -= 1 << (8 * size)
    return v


def val(ty, seed, idx, who=0, mode=0):
    """value the driver writes"""
    i = list(idx) + [0, 0]
    h = mix(seed, i[0], i[1], i[2], who)
    if ty.startswith("t"):            # user type, bytes
        size = int(ty.split(":")[1])
        out = bytearray()
        v = h
        if mode:
            raise ValueError
        for k in range(size):
            out.append((v >> (8 * (k % 8))) & 255)
            if k % 8 == 7:
                v = (v * 0x9E3779B97F4A7C15 + 1) & M64
        return bytes(out).hex()
    size, k = TYPES[ty]
    sm, us = h % 7 - 3, h % 4
    if mode == 2:
        sm, us = (1, 2, 3, -1, -2, 1)[h % 6], h % 3 + 1
    if k == "f":
        if mode:
            return float(sm)
        return float(h % 2001 - 1000) if size == 4 else float(h % 2000000001 - 1000000000)
    if mode:
        return us if k == "u" else sm
    return wrap(ty, h)


def parse_val(ty, tok):
    if ty.startswith("t"):
        return tok
    if ty == "float":
        return f32(float(tok))
    return float(tok) if ty == "double" else int(tok)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def reduce2(ty, op, a, b):
    if ty[0] == "t":                  # user type with reduction by driver: per byte
        return bytes(reduce2("uchar", op, x, y) for x, y in zip(bytes.fromhex(a), bytes.fromhex(b))).hex()
    if op == SUM:
        v = a + b
    elif op == PROD:
        v = a * b
    elif op == MIN:
        return min(a, b)
    elif op == MAX:
        return max(a, b)
    elif op == AND:
        v = a & b
    elif op == OR:
        v = a | b
    if ty == "float":
        return f32(v)
    return wrap(ty, v)


def neutral(ty, op):
    if ty[0] == "t":
        return bytes([neutral("uchar", op)] * int(ty[2:])).hex()
    size, k = TYPES[ty]
    if k == "f":
        big = 3.4028234663852886e38 if size == 4 else 1.7976931348623157e308
        return {SUM: 0.0, PROD: 1.0, MIN: big, MAX: -big}[op]
    lo = 0 if k == "u" else -(1 << (8 * size - 1))
    hi = (1 << (8 * size)) - 1 if k == "u" else (1 << (8 * size - 1)) - 1
    return {SUM: 0, OR: 0, PROD: 1, AND: wrap(ty, -1), MIN: hi, MAX: lo}[op]


# ------------------------------------------------------------------ boxes
# a box is a list [f0,t0,f1,t1,...]
def dims_of(box):
    return len(box) // 2


def box_size(b):
    n = 1
    for k in range(0, len(b), 2):
        n *= max(0, b[k + 1] - b[k])
    return n


def box_empty(b):
    return any(b[k + 1] <= b[k] for k in range(0, len(b), 2))


def box_and(a, b):
    r = []
    for k in range(0, len(a), 2):
        r += [max(a[k], b[k]), min(a[k + 1], b[k + 1])]
    return r


def box_idx(b):
    """indexes of box in driver order (first dimension fastest), as tuples"""
    d = dims_of(b)
    rs = [range(b[2 * k], b[2 * k + 1]) for k in range(d)]
    for t in itertools.product(*reversed(rs)):
        yield tuple(reversed(t))


def box_has(b, i):
    return all(b[2 * k] <= i[k] < b[2 * k + 1] for k in range(len(i)))


def bs(b):
    return " ".join(str(x) for x in b)


# ------------------------------------------------------------------ generators
def gen_box(src, dims, maxsize=None, offset=True):
    lim = maxsize or {1: 40, 2: 9, 3: 5}[dims]
    b = []
    off = src.weighted((6, 0), (1, 1), (1, 2), (1, 3)) if offset else 0
    for k in range(dims):
        n = src.draw(1, lim)
        f = 0
        if off == 1:
            f = src.draw(1, 20)
        elif off == 2:
            f = -src.draw(1, 20)
        elif off == 3:
            f = src.pick([5000000000, -5000000000, 2147483640, -2147483650, 1000003])
        b += [f, f + n]
    return b


def tiling(src, box, pieces):
    """disjoint boxes covering box (guillotine cuts)"""
    out = [list(box)]
    for _ in range(pieces - 1):
        c = [i for i, b in enumerate(out) if box_size(b) > 1]
        if not c:
            break
        b = out.pop(src.pick(c))
        ds = [k for k in range(dims_of(b)) if b[2 * k + 1] - b[2 * k] > 1]
        k = src.pick(ds)
        cut = src.draw(b[2 * k] + 1, b[2 * k + 1] - 1)
        x, y = list(b), list(b)
        x[2 * k + 1] = cut
        y[2 * k] = cut
        out += [x, y]
    return out


class CustomP:
    """user-defined partitioner: explicit list of (task, tag, box)"""

    def __init__(self, dims, ranges, flags):
        self.dims, self.ranges, self.flags = dims, ranges, flags

    def cmd(self, h):
        s = "pr %d custom %d %d %d" % (h, self.flags, self.dims, len(self.ranges))
        for t, g, b in self.ranges:
            s += " %d %d %s" % (t, g, bs(b))
        return s

    def normal(self):
        """expected frozen list: [(task, mapNo, tag, data, box)]; data None where not determined"""
        if self.flags & PF_SINGLE:
            per = {}
            for t, g, b in self.ranges:
                per.setdefault(t, set()).add(b[0])
            out = []
            for t in sorted(per):
                l = sorted(per[t])
                s = p = l[0]
                for x in l[1:] + [None]:
                    if x is not None and x == p + 1:
                        p = x
                        continue
                    out.append((t, 0, 0, 0, [s, p + 1]))
                    s = p = x
            return out
        l = [(t, g, b, i + 1) for i, (t, g, b) in enumerate(self.ranges)]
        l.sort(key=lambda x: (x[0], x[1], x[2][0]))
        if self.flags & PF_MERGE:
            m = []
            for t, g, b, d in l:
                if m and m[-1][0] == t and m[-1][1] == g and b[0] <= m[-1][2][1]:
                    m[-1][2][1] = max(m[-1][2][1], b[1])
                else:
                    m.append([t, g, list(b), None])
            l = [tuple(x) for x in m]
        out = []
        last = None
        mapno = -1
        task = None
        for t, g, b, d in l:
            if t != task:
                task, mapno, last = t, -1, -1
            if g == 0 or g != last:
                mapno += 1
                last = g
            out.append((t, mapno, g, d, list(b)))
        return out


def covers(box, boxes):
    rem = [list(box)]
    for b in boxes:
        nxt = []
        for o in rem:
            if box_empty(box_and(o, b)):
                nxt.append(o)
                continue
            o = list(o)
            for k in range(dims_of(o)):
                if o[2 * k] < b[2 * k]:
                    s = list(o)
                    s[2 * k + 1] = b[2 * k]
                    nxt.append(s)
                    o[2 * k] = b[2 * k]
                if o[2 * k + 1] > b[2 * k + 1]:
                    s = list(o)
                    s[2 * k] = b[2 * k + 1]
                    nxt.append(s)
                    o[2 * k + 1] = b[2 * k + 1]
        rem = nxt
        if not rem:
            return True
    return not rem


def gen_tags(src, ranges, force=None):
    """assign tags: 0 for all (own mapping each), or grouping by tags"""
    how = src.weighted((4, 0), (3, 1), (2, 2), (1, 3)) if force is None else force
    out = []
    for t, g, b in ranges:
        if how == 0:
            g = 0
        elif how == 1:
            g = 1
        elif how == 2:
            g = src.draw(1, 3)
        else:
            g = src.draw(0, 2)
        out.append((t, g, b))
    return out, how


def gen_single(src, dims, box, nt, holes=True, tags=None, maxpieces=None):
    """custom partitioner where each index has at most one owner"""
    n = box_size(box)
    mp = maxpieces or 12
    how = src.weighted((6, 0), (1, 1)) if dims == 1 and n <= 60 else 0
    if how == 1 and tags in (None, 0):
        rs = []
        for i in range(box[0], box[1]):
            t = src.draw(0, nt - 1) if not holes else src.draw(-1, nt - 1)
            if t >= 0:
                rs.append((t, 0, [i, i + 1]))
        if rs:
            cov = len(rs) == n
            rs = src.shuffle(rs)
            # index appended twice is allowed with this format
            if src.chance(20):
                rs.append(rs[0])
            return CustomP(dims, rs, PF_SINGLE | (0 if cov and src.chance(50) else PF_NOCOVER))
    tl = tiling(src, box, src.draw(1, min(n, mp)))
    rs = []
    hole = holes and src.chance(25)
    for b in tl:
        t = src.draw(0, nt - 1)
        if hole and src.chance(25):
            continue
        rs.append((t, 0, b))
    if not rs:
        rs.append((src.draw(0, nt - 1), 0, tl[0]))
    return finish_custom(src, dims, box, rs, tags)


def gen_multi(src, dims, box, nt, tags=None, maxpieces=None, pct=40):
    """custom partitioner with overlap between tasks (ranges of one task are disjoint)"""
    rs = []
    n = box_size(box)
    if nt >= 4 and maxpieces is None and src.chance(25):
        # groups of same size
        k = src.draw(2, nt - 1)
        for b in tiling(src, box, src.draw(1, min(n, 12))):
            ts = list(range(nt))
            for _ in range(nt - k):
                ts.remove(src.pick(ts))
            for t in ts:
                rs.append((t, 0, b))
        return finish_custom(src, dims, box, rs, tags)
    mp = maxpieces or 5
    for t in range(nt):
        for b in tiling(src, box, src.draw(1, min(n, mp))):
            if src.chance(pct):
                rs.append((t, 0, b))
    if not rs:
        rs.append((src.draw(0, nt - 1), 0, list(box)))
    return finish_custom(src, dims, box, rs, tags)


FINE = {1: (60, 260), 2: (9, 16), 3: (5, 7)}


def gen_fine_box(src, dims):
    """box for partitionings with many small ranges"""
    b = []
    for _ in range(dims):
        f = src.weighted((3, 0), (1, 7), (1, -30))
        b += [f, f + src.draw(*FINE[dims])]
    return b


def gen_fine(src, dims, box, nt, multi=False, tags=None):
    """custom partitioner with many small ranges: lists of operations get long"""
    holes = src.chance(25)
    cuts = []
    for k in range(dims):
        l, x = [], box[2 * k]
        m = src.pick([1, 1, 2, 3]) if dims == 1 else src.pick([1, 1, 2])
        while x < box[2 * k + 1]:
            y = min(x + src.draw(1, m), box[2 * k + 1])
            l.append([x, y])
            x = y
        cuts.append(l)
    tl = [[]]
    for l in cuts:
        tl = [a + b for a in tl for b in l]
    how = src.draw(0, 2)
    rs = []
    last = 0
    for i, b in enumerate(tl):
        if holes and src.chance(10):
            continue
        if multi:
            ts = [t for t in range(nt) if src.draw(0, 1)] if how else list(range(nt))
            for t in ts:
                rs.append((t, 0, b))
        else:
            # mostly another owner than the range before
            last = (last + 1) % nt if how == 0 else (last + src.draw(1, max(1, nt - 1))) % nt if how == 1 else src.draw(0, nt - 1)
            rs.append((last, 0, b))
    if not rs:
        rs.append((0, 0, tl[0]))
    return finish_custom(src, dims, box, rs, tags, 2000)


def finish_custom(src, dims, box, rs, tags=None, maxn=20):
    rs, how = gen_tags(src, rs, tags)
    flags = 0
    if how:
        flags |= PF_GROUP
    if dims == 1 and src.chance(25):
        flags |= PF_MERGE
    if not covers(box, [b for _, _, b in rs]) or len(rs) > maxn or src.chance(40):
        flags |= PF_NOCOVER
    return CustomP(dims, src.shuffle(rs), flags)


# ------------------------------------------------------------------ scripts
class Script:
    def __init__(self, nranks, backend="mpi"):
        self.n = nranks
        self.head = []
        self.lines = ["init " + backend]

    def add(self, *l):
        self.lines += l

    def at(self, ranks, line):
        self.lines.append("@%s %s" % (",".join(map(str, ranks)), line))

    def text(self):
        return "".join(h + "\n" for h in ["!ranks %d" % (1 if self.lines[0].startswith("init fake") else self.n)] + self.head) + "\n".join(self.lines) + "\n"


def gen_sim_head(src, full=True):
    """schedule and buffering of the simulated MPI"""
    h = ["!seed %d" % src.draw(1, 1000000), "!eager %d" % src.draw(0, 2)]
    h.append("!lazy %d" % src.pick([0, 50, 100]))
    h.append("!yield %d" % src.pick([20, 0, 60]))
    return h


def gen_mpi_env(src):
    h = []
    if src.chance(40):
        h.append("!env LAIK_MPI_REDUCE %d" % src.draw(0, 1))
    if src.chance(40):
        h.append("!env LAIK_MPI_ASYNC %d" % src.draw(0, 1))
    if src.chance(20):
        h.append("!env LAIK_LAYOUT_GENERIC 1")
    return h


# ------------------------------------------------------------------ parsing
def parse_dump(lines, label, ty, dims):
    """the DUMP block with given label -> list of (mapNo, tag, box, values) or None"""
    out = None
    for k, l in enumerate(lines):
        if l.startswith("DUMP %s " % label):
            cnt = int(l.split()[2])
            out = []
            for m in lines[k + 1:k + 1 + cnt]:
                if "NOMAP" in m or "BADADDR" in m or not m.startswith("R "):
                    return None
                a, b = m.split(":", 1)
                p = a.split()
                out.append((int(p[1]), int(p[2]), [int(x) for x in p[3:3 + 2 * dims]],
                            [parse_val(ty, x) for x in b.split()]))
            return out
    return None


def parse_lists(lines, label):
    """LIST block after 'PART <label>' -> [(task, mapNo, tag, data, box)]"""
    for k, l in enumerate(lines):
        if l == "PART " + label:
            p = lines[k + 1].split()
            if p[0] != "LIST" or p[1] == "null":
                return None
            out = []
            for m in lines[k + 2:k + 2 + int(p[1])]:
                v = [int(x) for x in m.split()[1:]]
                out.append((v[0], v[1], v[2], v[3], v[4:]))
            return out
    return None


# --- coordinates far away from each other

FARGAPS = [2 ** 31 - 2, 2 ** 31, 2 ** 31 + 3, 2 ** 32, 2 ** 32 + 5, 10 ** 12]


class Far:
    """monotonic change of coordinates opening huge gaps in one dimension. hole: the gap belongs to no box
    except of boxes spanning it (boxes of size one keep it), otherwise to boxes ending at the gap"""

    def __init__(self, src, box, hole=None):
        self.k = src.draw(0, dims_of(box) - 1)
        lo, hi = box[2 * self.k], box[2 * self.k + 1]
        self.cuts = sorted([src.draw(lo + 1, hi), src.pick(FARGAPS + ([2 ** 61] if len(box) == 2 else []))]
                           for _ in range(src.weighted((3, 1), (1, 2), (1, 3))))
        # shift everything: gaps upwards, downwards
        self.base = -sum(g for _, g in self.cuts) if src.chance(50) and lo > -10 ** 9 else 0
        self.hole = src.chance(40) if hole is None else hole

    def f(self, x):
        return x + self.base + sum(g for m, g in self.cuts if m <= x)

    def __call__(self, b):
        b, k = list(b), 2 * self.k
        b[k:k + 2] = [self.f(b[k]), self.f(b[k + 1] - 1) + 1 if self.hole else self.f(b[k + 1])]
        return b


class Cells:
    """compressed coordinates: boxes with borders at all borders of the given boxes, nothing in between is different"""

    def __init__(self, boxes):
        boxes = list(boxes)
        self.b = []
        for k in range(dims_of(boxes[0]) if boxes else 0):
            v = sorted({x for b in boxes for x in b[2 * k:2 * k + 2]})
            self.b.append(({x: i for i, x in enumerate(v)}, v))

    def idx(self, b):
        """cells of a box, each given by its first index"""
        if box_empty(b):
            return
        c = []
        for k, (pos, v) in enumerate(self.b):
            c += [pos[b[2 * k]], pos[b[2 * k + 1]]]
        for i in box_idx(c):
            yield tuple(self.b[k][1][x] for k, x in enumerate(i))
