"""Observers under test (counter, printer, drawers): taps around them and recomputation of their reports."""
import contextlib
import io
import os
import random
import re
import sys
import tempfile

from . import chain

KINDS = ["count", "print", "draw", "mpl"]


def _classes():
    from projectq.cengines import BasicEngine
    from projectq.ops import FlushGate

    class Tap(BasicEngine):
        """Notes every command that passes, one by one."""

        def __init__(self):
            super().__init__()
            self.log = []
            self.raised = None  # number of commands seen when what follows raised first

        def receive(self, command_list):
            for cmd in command_list:
                n = len(self.log) + 1
                self.log.append((chain.snap(cmd), cmd.gate, None if isinstance(cmd.gate, FlushGate) else str(cmd)))
                try:
                    self.send([cmd])
                except Exception:
                    if self.raised is None:
                        self.raised = n
                    raise

    return Tap


_tap = None


def Tap():
    global _tap
    if _tap is None:
        _tap = _classes()
    return _tap()


def make(o):
    """Observer of a description."""
    from projectq import backends as be

    k = o["k"]
    if k == "count":
        return be.ResourceCounter()
    if k == "print":
        return be.CommandPrinter(accept_input=bool(o.get("ask")), default_measure=o.get("dflt", 0), in_place=bool(o.get("inplace")))
    cls = be.CircuitDrawer if k == "draw" else be.CircuitDrawerMatplotlib
    d = cls(accept_input=bool(o.get("ask")), default_measure=o.get("dflt", 0))
    if o.get("loc"):
        d.set_qubit_locations({i: v for i, v in enumerate(o["loc"])})
    return d


class Typist:
    """Stands in for the person at the keyboard: invalid lines now and then, then an answer."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.answers = []
        self.invalid = 0
        self.prompts = 0

    def __call__(self, prompt=""):
        self.prompts += 1
        if self.rng.random() < 0.25:
            self.invalid += 1
            return self.rng.choice(["", "2", "y", "-1", "01", "10", "yes", "none", "1.0"])
        a = self.rng.choice("01")
        self.answers.append(int(a))
        return a


@contextlib.contextmanager
def keyboard(typist):
    import builtins

    old = builtins.input
    builtins.input = typist
    try:
        yield
    finally:
        builtins.input = old


@contextlib.contextmanager
def scratch(settings=None):
    """Working directory of our own (drawings read and write settings.json there)."""
    import json

    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="dst-draw-") as d:
        os.chdir(d)
        try:
            if settings is not None:
                with open("settings.json", "w") as f:
                    json.dump(settings, f)
            yield d
        finally:
            os.chdir(old)


# ------------------------------------------------------------------------------------------------ recomputation
def real(log):
    """Everything but flushes."""
    return [e for e in log if e[0][0] != "Flush"]


def ids_of(s):
    return [i for r in s[1] for i in r] + list(s[2])


def counts(log, last):
    """Independent report over a recorded stream: (class counts, gate counts by text, width, depth)."""
    cls, txt = {}, {}
    width = live = deepest = 0
    depth = {}
    for s, gate, _ in real(log):
        name = type(gate).__name__
        nc = len(s[2])
        cls[(name, nc)] = cls.get((name, nc), 0) + 1
        txt[(name, s[0], nc)] = txt.get((name, s[0], nc), 0) + 1
        ids = ids_of(s)
        if name == "AllocateQubitGate":
            live += 1
            depth[ids[0]] = 0
        elif name == "DeallocateQubitGate":
            live -= 1
            depth.pop(ids[0], None)
        else:
            d = max(depth[i] for i in ids) + 1
            for i in ids:
                depth[i] = d
            deepest = max(deepest, d)
        width = max(width, live)
    return cls, txt, width, deepest


def judge_counter(c, log, where):
    """Problem text or None."""
    cls, txt, width, depth = counts(log, None)
    gc = {}
    for (g, nc), n in c.gate_class_counts.items():
        gc[(g.__name__, nc)] = gc.get((g.__name__, nc), 0) + n
    if gc != cls:
        return f"{where}: gate_class_counts is {diff(gc, cls)} against the commands that passed"
    gt = {}
    for (g, nc), n in c.gate_counts.items():
        gt[(type(g).__name__, str(g), nc)] = gt.get((type(g).__name__, str(g), nc), 0) + n
    if gt != txt and not merged(gt, txt):
        return f"{where}: gate_counts is {diff(gt, txt)} against the commands that passed"
    if c.max_width != width:
        return f"{where}: max_width is {c.max_width}, {width} qubits were alive at once"
    if c.depth_of_dag != depth:
        return f"{where}: depth_of_dag is {c.depth_of_dag}, the longest path is {depth}"
    text = str(c)
    if cls:
        lines = [x.strip() for x in text.split("\n\n")[0].split("\n")[1:]]
        want = sorted("C" * nc + n + " : " + str(k) for (n, nc), k in cls.items())
        if sorted(lines) != want:
            return f"{where}: printed class counts {lines}, expected {want}"
        m = re.search(r"\(number of qubits\) : (\d+)", text)
        if not m or int(m.group(1)) != width:
            return f"{where}: printed width {m and m.group(1)}, expected {width}"
    elif text != "(No quantum resources used)":
        return f"{where}: prints resources although nothing passed: {text!r}"
    return None


def merged(a, b):
    """Equal gates with different texts (angles equal up to rounding) may share an entry: totals per class and controls decide."""
    def tot(d):
        out = {}
        for (n, t, nc), k in d.items():
            out[(n, nc)] = out.get((n, nc), 0) + k
        return out

    return tot(a) == tot(b) and set(a) <= set(b) and all(k[0] in ROTATIONS for k in set(b) if a.get(k) != b[k])


ROTATIONS = ("Rx", "Ry", "Rz", "R", "Ph", "Rxx", "Ryy", "Rzz", "UniformlyControlledRy", "UniformlyControlledRz", "TimeEvolution", "MatrixGate",
             "BasicMatrixGate")


def diff(a, b):
    keys = sorted({k for k in set(a) | set(b) if a.get(k) != b.get(k)}, key=str)[:4]
    return {k: a.get(k, 0) for k in keys}, {k: b.get(k, 0) for k in keys}


def printed(log, inplace):
    return "".join((f"\x00\r\t\x1b[K{t}\r" if inplace else t + "\n") for _, _, t in real(log))


# ------------------------------------------------------------------------------------------------ TikZ
NODE = re.compile(r"^\\node\[([^\]]*)\] \(([^)]*)\) at \(([-\d.e]+),\s*-([-\d.e]+)\)\s*\{(.*)\};$", re.S)
REF = re.compile(r"line\d+(?:-\d+)?_gate-?\d+")


def undefined_styles(tex):
    """Styles the picture uses without defining them."""
    head, body = tex.split("\\tikzstyle", 1)
    known = set(re.findall(r"\\tikzstyle\{(\w+)\}", tex)) | set(re.findall(r"^(\w+)/\.style", tex, re.M)) | {"none"}
    used = set()
    for m in re.findall(r"\\(?:node|draw)\[([^\]]*)\]", tex):
        used |= {x.strip() for x in m.split(",") if re.fullmatch(r"[a-z]+", x.strip())}
    for m in re.findall(r"edge ?\[([^\]]*)\]", tex):
        used |= {x.strip() for x in m.split(",") if re.fullmatch(r"[a-z]+", x.strip())}
    return sorted(used - set(re.findall(r"\\tikzstyle\{(\w+)\}", tex)) - known)


def statements(tex):
    """TikZ statements of the picture."""
    body = tex.split("\\begin{tikzpicture}", 1)[1].split("\\end{tikzpicture}")[0]
    out, cur, depth = [], "", 0
    for ch in body:
        if ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
        cur += ch
        if ch == ";" and depth == 0:
            out.append(cur.strip())
            cur = ""
    return out, cur


def tex_name(gate):
    try:
        return gate.tex_str()
    except AttributeError:
        return str(gate)


def parse_tikz(tex):
    """(items per line [(what, x)], problem)."""
    st, rest = statements(tex)
    items = {}
    nodes = {}
    order = []
    for s in st:
        i = s.find("\\node[") if s.find("\\draw") < 0 else min(x for x in (s.find("\\node["), s.find("\\draw")) if x >= 0)
        s = s[i:]
        m = NODE.match(s)
        if m:
            style, name, x, y, text = m.groups()
            style = style.split(",")[0]
            if name in nodes:
                return None, None, f"node {name} is placed twice"
            nodes[name] = (style, float(x), float(y))
            if style == "none" and "Ket" not in text:
                continue
            what = {"xstyle": "X", "phase": "dot", "swapstyle": "swap", "measure": "meas", "none": "alloc"}.get(style)
            if what == "X" and "frac" in text:
                what = "half†" if "dagger" in text else "half"
                order.append((what, float(y)))
                continue
            if what is None:
                return None, None, f"unknown node {s[:80]!r}"
            items.setdefault(float(y), []).append((what, float(x)))
            order.append((what, float(y)))
            continue
        if s.startswith("\\node"):
            return None, None, f"unreadable {s[:120]!r}"
        for ref in REF.findall(s.split("node[pos=.5]")[0]):
            if ref not in nodes:
                return None, None, f"{s[:90]!r} refers to {ref}, which is not placed"
        m = re.match(r"^\\draw\[operator.*?\]line(\d+)_gate(\d+)\) rectangle \(.*?\]line(\d+)_gate(\d+)\) node\[pos=\.5\] \{(.*)\};$", s, re.S)
        if m:
            a, k, b, k2, text = m.groups()
            x = nodes[f"line{a}_gate{k}"][1]
            for ln in range(int(a), int(b) + 1):
                items.setdefault(float(ln), []).append((("box", text, int(a), int(b)), x))
            order.append((("box", text, int(a), int(b)), float(a)))
            continue
        m = re.match(r"^\\draw \(\[yshift=[^\]]*\](line\d+_gate\d+)\.center\) edge \[edgestyle\]", s)
        if m:
            n = nodes[m.group(1)]
            items.setdefault(n[2], []).append(("free", n[1]))
            order.append(("free", n[2]))
    return items, order, None


def expected_items(log, loc=None):
    """Per line: the items a drawing must show, in order; crossing boxes are marked."""
    from projectq.ops import Measure, SqrtSwap, Swap, X, Z, get_inverse

    loc = loc or (lambda i: i)
    out = {}
    halves = []
    order = []

    def put(line, what):
        out.setdefault(float(line), []).append(what)

    for s, gate, _ in real(log):
        t = [loc(i) for r in s[1] for i in r]
        c = [loc(i) for i in s[2]]
        name = type(gate).__name__
        if name == "AllocateQubitGate":
            put(t[0], "alloc")
            order.append(("alloc", t[0]))
        elif name == "DeallocateQubitGate":
            put(t[0], "free")
            order.append(("free", t[0]))
        elif gate == X:
            put(t[0], "X")
            for i in c:
                put(i, "dot")
        elif gate == Z and c:
            for i in t + c:
                put(i, "dot")
        elif gate == Swap or gate == SqrtSwap or gate == get_inverse(SqrtSwap):
            for i in t:
                put(i, "swap")
            for i in c:
                put(i, "dot")
            if not gate == Swap:
                halves.append("half" if gate == SqrtSwap else "half†")
        elif gate == Measure:
            for i in t:
                put(i, "meas")
        else:
            for i in range(min(t), max(t) + 1):
                put(i, ("box", tex_name(gate), min(t), max(t)) if i in t or i in c else ("over", tex_name(gate), min(t), max(t)))
            for i in c:
                if not min(t) <= i <= max(t):
                    put(i, "dot")
    return out, halves


def judge_tikz(tex, log, loc=None, monotone=True, ordered=False):
    bad = undefined_styles(tex)
    if bad:
        return f"styles {bad} are not defined"
    items, order, bad = parse_tikz(tex)
    if bad:
        return bad
    want, halves = expected_items(log, loc)
    for line in sorted(set(items) | set(want)):
        # boxes of gates acting on lines around this one cross it wherever the layout puts them
        got = [(w, x) for w, x in items.get(line, [])]
        crossing = {}
        for w in want.get(line, []):
            if isinstance(w, tuple) and w[0] == "over":
                crossing[w[1:]] = crossing.get(w[1:], 0) + 1
        own = [w for w in want.get(line, []) if not (isinstance(w, tuple) and w[0] == "over")]
        seq, i = [], 0
        for w, x in got:
            if i < len(own) and own[i] == w:
                i += 1
                seq.append(x)
            elif isinstance(w, tuple) and crossing.get(w[1:], 0):
                crossing[w[1:]] -= 1
            else:
                return f"line {line:g} shows {w} where the circuit has {own[i] if i < len(own) else 'nothing'} (item {i})"
        if i < len(own):
            return f"line {line:g} ends before {own[i]} (item {i})"
        if any(crossing.values()):
            return f"line {line:g}: gate {crossing} is not drawn across it"
        if monotone and any(b < a - 1e-9 for a, b in zip(seq, seq[1:])):
            return f"line {line:g}: items are not placed from left to right: {seq}"
    got = sorted(w for w, _ in order if isinstance(w, str) and w.startswith("half"))
    if got != sorted(halves):
        return f"square-root-of-swap marks {got}, expected {sorted(halves)}"
    return None


# ------------------------------------------------------------------------------------------------ matplotlib
def expected_columns(log, pos):
    """Per wire: (what) in order; every item also as one object over its wires."""
    out = {}
    for s, gate, _ in real(log):
        name = type(gate).__name__
        if name in ("AllocateQubitGate", "DeallocateQubitGate"):
            continue
        t = [pos[i] for r in s[1] for i in r]
        c = sorted(pos[i] for i in s[2])
        for k, i in enumerate(sorted(t)):
            out.setdefault(i, []).append((short(s[0]), tuple(sorted(t)), tuple(c), "t"))
        for i in c:
            out.setdefault(i, []).append((short(s[0]), tuple(sorted(t)), tuple(c), "c"))
    return out


def short(name):
    return name.split("(")[0]


def read_figure(axes, n):
    """[(x, kind, wires)] from the artists of a figure; wires by index from the bottom."""
    from matplotlib.patches import Circle, Rectangle

    ys = None
    for col in axes.collections:
        if col.get_label() == "qubit_wires":
            ys = [seg[0][1] for seg in col.get_segments()]
    if ys is None or len(ys) != n:
        return None, f"{len(ys or [])} wires drawn for {n} qubits"

    def wire(y, tol=1e-6):
        for i, w in enumerate(ys):
            if abs(w - y) < tol:
                return i
        return None

    def ctr(path):
        e = path.get_extents()
        return (e.x0 + e.x1) / 2, (e.y0 + e.y1) / 2

    items = []
    for t in axes.texts:
        x, y = t.get_position()
        items.append((x, "text", t.get_text(), y))
    for col in axes.collections:
        k = col.get_label()
        if k == "NOT" or k == "Measure":
            x, y = ctr(col.get_paths()[0])
            items.append((x, k, None, y))
        elif k == "CZ":
            (x, y), (_, y2) = ctr(col.get_paths()[0]), ctr(col.get_paths()[1])
            items.append((x, k, None, y))
        elif k == "SWAP":
            seg = col.get_segments()
            items.append((seg[-1][0][0], k, None, (seg[-1][0][1], seg[-1][1][1])))
    for p in axes.patches:
        if isinstance(p, Circle):
            items.append((p.center[0], "ctrl", None, p.center[1]))
        elif isinstance(p, Rectangle):
            x, y = p.get_x() + p.get_width() / 2, p.get_y() + p.get_height() / 2
            items.append((x, "rect", (p.get_y(), p.get_y() + p.get_height()), y))
    return (items, ys, wire), None


def judge_figure(axes, log, pos):
    n = len(pos)
    got, bad = read_figure(axes, n)
    if bad:
        return bad
    items, ys, wire = got
    labels = sorted((y for x, k, t, y in items if k == "text" and x < min(0.06, 1)), key=float)
    texts = [(x, t, y) for x, k, t, y in items if k == "text"]
    per = {i: [] for i in range(n)}
    lab = sorted(texts, key=lambda e: e[0])[:n]
    if sorted(wire(y) if wire(y) is not None else -1 for _, _, y in lab) != list(range(n)):
        return "not every wire has its label"
    rest = sorted(texts, key=lambda e: e[0])[n:]
    rects = [(x, t) for x, k, t, y in items if k == "rect"]
    for x, t, y in rest:
        # the wires a box covers
        box = next((r for rx, r in rects if abs(rx - x) < 1e-6 and r[0] <= y <= r[1]), None)
        if box is None:
            return f"text {t!r} has no box"
        cov = [i for i, w in enumerate(ys) if box[0] <= w <= box[1]]
        for i in cov:
            per[i].append((x, short(t), "t"))
    for x, k, t, y in items:
        if k in ("NOT", "Measure"):
            per[wire(y)].append((x, "X" if k == "NOT" else k, "t"))
        elif k == "CZ":
            per[wire(y)].append((x, "Z", "t"))
        elif k == "SWAP":
            for yy in y:
                per[wire(yy)].append((x, "Swap", "t"))
        elif k == "ctrl":
            per[wire(y)].append((x, None, "c"))
    want = expected_columns(log, pos)
    for i in range(n):
        seq = sorted(per[i], key=lambda e: e[0])
        exp = want.get(i, [])
        if [(e[1], e[2]) for e in seq] != [(None if k == "c" else g, k) for g, _, _, k in exp]:
            return f"wire {i} shows {[(e[1], e[2]) for e in seq][:12]}, the circuit has {[(None if k == 'c' else g, k) for g, _, _, k in exp][:12]}"
    return None
