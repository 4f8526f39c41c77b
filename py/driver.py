"""Replays specification-generated cases into the real toolbox and records what it does.

usage: driver.py CASES.ndjson OBS.ndjson [CASES OBS ...] [--calls] [--fresh]

--calls keeps the program in the record; --fresh reads such records and adds,
for every call, its outcome in a process without any history (C16).

Every case is a program: a list of calls, executed in order in one process; an
argument may refer to an output of an earlier call of the same case.  The
record that comes out holds, for every call, the arguments actually passed, the
outcome (values or error), the validity warnings, and whether an array passed
in was changed or is shared with the result.
"""
import importlib
import json
import os
import re
import shutil
import signal
import struct
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np  # noqa: E402

BASE = "deltares_coastal_structures_toolbox"
CALL_LIMIT_S = 20


def load_modules():
    spec = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Sigs.tla")
    mods = {}
    with open(spec) as fh:
        for m in re.finditer(r'<<"(\w+)", "(deltares[\w.]+)">>', fh.read()):
            mods[m.group(1)] = m.group(2)
    return mods


MODS = load_modules()
_loaded = {}


def fn(m, f):
    if m not in _loaded:
        _loaded[m] = importlib.import_module(MODS[m])
    return getattr(_loaded[m], f)


def lookup(m, path):
    """a tabulated property of a unit"""
    fn(m, "__name__")
    x = _loaded[m].unit_properties
    for k in path.split("."):
        x = x[k]
    return x


def enc(x):
    b = struct.unpack(">ii", struct.pack(">d", float(x)))
    return [b[0], b[1]]


def dec(p):
    return struct.unpack(">d", struct.pack(">ii", p[0], p[1]))[0]


def is_pair(x):
    return isinstance(x, list) and len(x) == 2 and all(isinstance(k, int) and not isinstance(k, bool) for k in x)


def cast(x, ty):
    if ty == "int" and x == x and abs(x) < 1e15 and float(x).is_integer():
        return int(x)
    if ty == "np":
        return np.float64(x)
    return x


def norm_elem(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {"bad": "complex"}
    if isinstance(x, (int, float, np.integer, np.floating)):
        return enc(x)
    if isinstance(x, str):
        return x
    if x is None:
        return {"bad": "none"}
    return {"bad": type(x).__name__}


def norm_out(x):
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return norm_elem(x.item())
        if x.ndim == 1:
            return {"arr": [norm_elem(e) for e in x.tolist()]}
        return {"bad": "ndarray%d" % x.ndim}
    if isinstance(x, list):
        return {"arr": [norm_elem(e) for e in x]}
    if isinstance(x, dict) and "bad" in x:
        return x
    return norm_elem(x)


def shape2(n):
    return (2, n // 2) if n % 2 == 0 else (n, 1)


def flat(x, shape):
    """the elements of a result for inputs of this shape, row by row"""
    if not isinstance(x, np.ndarray) or x.ndim == 0:
        return x
    if x.ndim != 2 or any(a not in (1, b) for a, b in zip(x.shape, shape)):
        return {"bad": "shape %s" % (x.shape,)}
    return np.broadcast_to(x, shape).ravel()


def outputs(ret, keys, shape=None):
    if shape:
        ret = tuple(flat(e, shape) for e in ret) if isinstance(ret, tuple) else {k: flat(e, shape) for k, e in ret.items()} if isinstance(ret, dict) else flat(ret, shape)
    if ret is None:
        return []
    if isinstance(ret, dict):
        ks = keys if keys else sorted(ret)
        return [norm_out(ret[k]) if k in ret else {"bad": "missing key " + k} for k in ks]
    if isinstance(ret, tuple):
        return [norm_out(e) for e in ret]
    return [norm_out(ret)]


WRE = re.compile(r"^Value of (?P<x>.*) \((?P<v>[^()]*)\) is outside of the validity range "
                 r"\((?P<lo>[^()]*?) - (?P<hi>[^()]*)\) for the (?P<f>.*) formula\.$", re.S)


def num(s):
    s = s.strip()
    if s in ("True", "False"):
        return enc(1.0 if s == "True" else 0.0)
    try:
        return enc(float(s))
    except ValueError:
        return enc(float("nan"))


def parse_warnings(ws):
    out = []
    for w in ws:
        t = str(w.message)
        m = WRE.match(t)
        if m:
            out.append({"x": m["x"], "f": m["f"], "v": num(m["v"]), "lo": num(m["lo"]), "hi": num(m["hi"])})
        elif "validity range" in t or "is outside of" in t:
            out.append({"x": "?" + t, "f": "", "v": enc(0), "lo": enc(0), "hi": enc(0)})
    return out


NOTICES = (("density", ("rho", "densit")), ("sigma", ("sigma",)), ("converge", ("iteration", "converge", "precision")))


def notices(ws):
    """what was told besides limits exceeded, by subject"""
    out = []
    for w in ws:
        t = str(w.message)
        if "validity range" in t or "is outside of" in t or not issubclass(w.category, UserWarning):
            continue
        out += [k for k, words in NOTICES if any(x in t.lower() for x in words)] or ["other"]
    return sorted(set(out))


# every warning, for the whole life of the process: a call that silences
# warnings silences them for its successors, as it would for a user
WARNED = []


def listen():
    warnings.simplefilter("always")

    def note(message, category, filename, lineno, file=None, line=None):
        WARNED.append(warnings.WarningMessage(message, category, filename, lineno, file, line))

    warnings.showwarning = note


class TimeUp(BaseException):
    pass


def on_alarm(*_):
    raise TimeUp()


def resolve(v, done):
    """a reference to an earlier output of this case -> encoded value"""
    if isinstance(v, dict) and "ref" in v:
        c, o = v["ref"][0] - 1, v["ref"][1] - 1
        src = done[c]["v"]
        if done[c]["e"] or o >= len(src):
            return None
        x = src[o]
        if is_pair(x) and "pow" in v:
            y = dec(x)
            try:
                x = enc(y ** dec(v["pow"]) if y >= 0 else float("nan"))
            except (OverflowError, ZeroDivisionError):
                x = enc(float("inf"))
        if is_pair(x) and "mul" in v:
            x = enc(dec(x) * dec(v["mul"]))
        if is_pair(x) and "add" in v:
            x = enc(dec(x) + dec(v["add"]))
        return x
    return v


def to_py(v, ty, shared, ar=""):
    if is_pair(v):
        x = cast(dec(v), ty)
        return x
    if isinstance(v, dict) and "arr" in v:
        if "sh" in v:
            key = v["sh"]
            if key not in shared:
                shared[key] = np.array([dec(e) if is_pair(e) else e for e in v["arr"]])
            return shared[key]
        if v.get("list"):
            return [dec(e) for e in v["arr"]]
        x = np.array([dec(e) if is_pair(e) else e for e in v["arr"]])
        if ar == "int" and x.dtype.kind == "f" and np.all(x == np.floor(x)):
            return x.astype(int)
        if ar == "ro":  # read-only memory
            x.flags.writeable = False
        elif ar == "str":  # every second element of a longer array
            y = np.full(2 * len(x) + 1, 1e9 if x.dtype.kind == "f" else 0, dtype=x.dtype)
            y[1::2] = x
            x = y[1::2]
        elif ar == "2d":
            x = x.reshape(shape2(len(x)))
        elif ar == "grid":  # a column, a row or all of a 2 x 2 grid
            x = x.reshape((2, 2))
            x = x[:, :1] if np.array_equal(x[:, 0], x[:, 1]) else x[:1] if np.array_equal(x[0], x[1]) else x
        return x
    if v == "None":
        return None
    return v


def shape_of(call):
    if call.get("ar") == "grid":
        return (2, 2)
    if call.get("ar") == "2d":
        return shape2(max([len(v["arr"]) for v in call["a"].values() if isinstance(v, dict) and "arr" in v] or [1]))
    return None


def run_call(call, done, shared):
    a = {}
    ok = True
    for k, v in (call["a"] or {}).items():
        r = resolve(v, done)
        if r is None or (isinstance(r, dict) and "bad" in r):
            ok = False
        a[k] = r
    rec = {"m": call["m"], "f": call["f"], "a": a, "e": "", "v": [], "w": [], "nt": [], "mut": False, "ali": False, "skip": False}
    if not ok:
        rec.update(skip=True, a={})
        return rec, None
    ty = call.get("ty", "")
    kw = {k: to_py(v, ty, shared, call.get("ar", "")) for k, v in a.items()}
    files = call.get("files")
    tmp = None
    if files:  # one directory for the session
        tmp = shared.setdefault("dir", None) or tempfile.mkdtemp(prefix="verif_out_")
        shared["dir"] = tmp
        kw["output_dir"] = tmp
    before = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    args = []
    if call.get("pos"):
        args = [kw.pop(k) for k in call["pos"]]
    if call.get("rev"):
        kw = dict(reversed(list(kw.items())))
    ret = None
    del WARNED[:]
    signal.setitimer(signal.ITIMER_REAL, CALL_LIMIT_S)
    try:
        if call["f"] == "unit_properties":
            ret = lookup(call["m"], kw["path"])
        else:
            ret = fn(call["m"], call["f"])(*args, **kw)
    except TimeUp:
        rec["e"] = "Timeout"
    except Exception as ex:  # the outcome, whatever it is
        names = [c.__name__ for c in type(ex).__mro__]
        rec["e"] = "ValueError" if "ValueError" in names else type(ex).__name__
        rec["msg"] = str(ex)[:200]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    rec["w"] = parse_warnings(WARNED)
    rec["nt"] = notices(WARNED)
    if not rec["e"]:
        rec["v"] = outputs(ret, call.get("keys"), shape_of(call))
    full = dict(kw)
    for n, x in enumerate(args):
        full[call["pos"][n]] = x
    for k, b in before.items():
        if not np.array_equal(full[k], b, equal_nan=b.dtype.kind == "f") or full[k].dtype != b.dtype:
            rec["mut"] = True
    outs = ret if isinstance(ret, tuple) else list(ret.values()) if isinstance(ret, dict) else [ret]
    for o in outs:
        if isinstance(o, np.ndarray):
            for k in before:
                if np.shares_memory(o, full[k]):
                    rec["ali"] = True
    if files:
        rec["fs"] = {}
        for name in sorted(os.listdir(tmp)):
            with open(os.path.join(tmp, name), errors="replace") as fh:
                rec["fs"][name] = parse_file(fh.read(), "NN" if name.endswith(".inp") else "XGB")
    return rec, ret


def tok(t):
    try:
        return enc(float(t))
    except ValueError:
        return t


def parse_file(text, kind):
    """rows of fields; comment lines of the NN format are dropped"""
    lines = text.splitlines()
    if kind == "NN":
        lines = [ln for ln in lines if not ln.startswith("!") and not ln.startswith("*") and ln.strip()]
        return [[tok(t) for t in ln.split()] for ln in lines]
    return [[tok(t) for t in ln.split(";")] for ln in lines if ln.strip()]


def scribble(ret):
    """the caller overwrites what it received; later calls must not see that"""
    outs = ret if isinstance(ret, tuple) else list(ret.values()) if isinstance(ret, dict) else [ret]
    for o in outs:
        if isinstance(o, np.ndarray) and o.flags.writeable and o.ndim > 0:
            o[...] = 0 if o.dtype.kind != "f" else -77.0
        elif isinstance(o, list):
            for n in range(len(o)):
                o[n] = None
    if isinstance(ret, dict):
        for k in list(ret):
            ret[k] = -77.0


def fresh(call, done):
    """the same call in a process that has not made any call yet"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            rec, _ = run_call(call, done, {})
            data = json.dumps(rec, allow_nan=False).encode()
        except BaseException as ex:
            data = json.dumps({"e": "driver " + repr(ex), "v": [], "w": []}).encode()
        with os.fdopen(w, "wb") as fh:
            fh.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    rec = json.loads(data)
    return {"e": rec["e"], "v": rec["v"], "w": rec["w"]}


def main(src, dst, mode=""):
    """mode "fresh": only record, for every second call, its outcome without any history"""
    signal.signal(signal.SIGALRM, on_alarm)
    with open(src) as fi, open(dst, "w") as fo:
        for line in fi:
            case = json.loads(line)
            done, shared = [], {}
            if mode == "fresh":
                old = case["o"]
                for m in {c["m"] for c in case["calls"]}:
                    fn(m, "__name__")
                for n, call in enumerate(case["calls"]):
                    if (n + case["id"]) % 2 == 0 or n + 1 == len(old):
                        old[n]["fr"] = fresh(call, old)
                case.pop("calls")
                fo.write(json.dumps(case, allow_nan=False) + "\n")
                continue
            for call in case["calls"]:
                for _ in range(call.get("rep", 1) - 1):
                    run_call(call, done, shared)
                rec, ret = run_call(call, done, shared)
                done.append(rec)
                if call.get("scribble"):
                    scribble(ret)
            if shared.get("dir"):
                shutil.rmtree(shared["dir"], ignore_errors=True)
            obs = {k: v for k, v in case.items() if k != "calls" or KEEP_CALLS}
            obs["o"] = done
            fo.write(json.dumps(obs, allow_nan=False) + "\n")


if __name__ == "__main__":
    files = [f for f in sys.argv[1:] if not f.startswith("--")]
    KEEP_CALLS = "--calls" in sys.argv
    listen()
    for k in range(0, len(files), 2):
        main(files[k], files[k + 1], "fresh" if "--fresh" in sys.argv else "")
