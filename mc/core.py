"""Explorer: enumerates a finite case space exhaustively on the real code.

A check module defines

    PID, TITLE, LEVEL, RULE, TECHNIQUE, NOTE
    def cases(tier)      -> list of (key, params); deterministic, simplest first
    def run(params, ob)  -> executes the real code on one case; reports through `ob`
    def warm()           -> optional, run once in the parent before the workers fork

`ob` (Observer) collects violations, outcome signatures, and for the
model-checking style checks also states and transitions.
"""
import hashlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

from mc import gen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
CASE_TIMEOUT = 240  # seconds of processor time, which other load on the machine does not use up
WALL_TIMEOUT = 700


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _canon(x, digits=7):
    """A canonical, hashable text for an observed value (floats rounded)."""
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, dict):
        return "{" + ",".join(str(k) + ":" + _canon(v, digits) for k, v in sorted(x.items(), key=lambda i: str(i[0]))) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(_canon(v, digits) for v in x) + "]"
    if isinstance(x, (float, np.floating)):
        if x != x:
            return "nan"
        if x == 0 or abs(x) < 1e-13:
            return "0"
        return "%.*e" % (digits - 1, x)
    return str(x)


def digest(x, digits=7):
    return hashlib.blake2b(_canon(x, digits).encode(), digest_size=12).digest()


class Observer:
    def __init__(self):
        self.violations = []
        self.signature = None
        self.nontrivial = True
        self.checks = 0
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.notes = {}
        self.suffix = ""

    # ----- outcomes
    def sig(self, *values):
        """The observed outcome of this case, used to count distinct outcomes."""
        self.signature = digest(values)

    def trivial(self):
        self.nontrivial = False

    def state(self, *values):
        self.states.add(digest(values))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    # ----- assertions
    def fail(self, what, key=None):
        self.violations.append((key, what))
        raise Violation(what)

    def soft(self, key, what):
        """Record a violation under its own key and go on."""
        self.violations.append((key, what))

    def true(self, cond, what):
        self.checks += 1
        if not cond:
            self.fail(what)

    def equal(self, got, want, what):
        self.checks += 1
        try:
            same = bool(np.all(got == want)) and np.shape(got) == np.shape(want)
        except Exception:
            same = False
        if not same:
            self.fail("%s: got %r, expected %r" % (what, got, want))

    def close(self, got, want, what, rtol=1e-8, atol=1e-10, scale=None):
        """Every entry of `got` matches `want`; `scale` sets the size that rtol is relative to."""
        self.checks += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception:
            self.fail("%s: got %r, expected numbers like %r" % (what, got, want))
        if g.shape != w.shape:
            self.fail("%s: shape %s, expected %s" % (what, g.shape, w.shape))
        if g.size == 0:
            return
        if scale is None:
            finite = w[np.isfinite(w)]
            scale = float(np.max(np.abs(finite))) if finite.size else 0.0
        bad = ~(np.abs(g - w) <= atol + rtol * scale)
        bad &= ~(np.isnan(g) & np.isnan(w))
        bad &= ~((g == w))
        if np.any(bad):
            i = tuple(int(k) for k in np.argwhere(bad)[0]) if g.ndim else ()
            self.fail("%s%s: got %.12g, expected %.12g (|diff| %.3g, tolerance %.3g, %d of %d entries differ)" % (
                what, list(i) if i else "", g[i], w[i], abs(g[i] - w[i]), atol + rtol * scale, int(bad.sum()), g.size))

    def raises(self, fn, what, exc=Exception):
        self.checks += 1
        try:
            fn()
        except exc:
            return
        except BaseException as e:  # the wrong kind of error
            self.fail("%s: raised %r instead of an ordinary exception" % (what, e))
        self.fail("%s: was accepted" % what)


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_one(mod, key, params):
    ob = Observer()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    signal.alarm(WALL_TIMEOUT)
    try:
        # Half of the cases hand whole numbers to the library as integers.
        with gen.whole_numbers(zlib.crc32(key.encode()) % 2 == 1):
            mod.run(params, ob)
    except Violation:
        pass
    except CaseTimeout:
        ob.violations.append((None, "did not finish within %d s" % CASE_TIMEOUT))
    except MemoryError:
        ob.violations.append((None, "ran out of memory"))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
        ob.violations.append((None, "raised %s: %s [%s]" % (type(e).__name__, str(e)[:300], " > ".join(where))))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    return ob


def _worker(mod, cases, mine, progress, w, out):
    results = []
    for i in mine:
        os.pwrite(progress, (i + 1).to_bytes(8, "little"), 8 * w)
        key, params = cases[i]
        ob = _run_one(mod, key, params)
        results.append((i, ob.violations, ob.signature if ob.nontrivial else None, ob.checks, ob.states, ob.transitions, ob.traces, ob.notes))
        if ob.violations and len([r for r in results if r[1]]) > 400:
            break
        if any("did not finish within" in what for _, what in ob.violations):
            break  # the remaining cases may hang as well; this one decides
    with open(out, "wb") as f:
        pickle.dump(results, f)


def explore(mod, cases):
    """Run every case; contiguous chunks, so neighbours share a process."""
    n = len(cases)
    nw = max(1, min(WORKERS, n))
    chunk = getattr(mod, "CHUNK", None) or max(1, min(32, n // (nw * 3) or 1))
    chunks = [list(range(a, min(n, a + chunk))) for a in range(0, n, chunk)]
    work = tempfile.mkdtemp(prefix="mc_")
    prog = os.path.join(work, "progress")
    with open(prog, "wb") as f:
        f.write(b"\0" * 8 * nw)
    pfd = os.open(prog, os.O_RDWR)
    sys.stdout.flush()
    sys.stderr.flush()
    pids = {}
    for w in range(nw):
        mine = [i for c in chunks[w::nw] for i in c]
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.chdir(work)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 2)
                os.dup2(devnull, 1)
                _worker(mod, cases, mine, pfd, w, os.path.join(work, "r%d" % w))
            except BaseException:
                with open(os.path.join(work, "e%d" % w), "w") as f:
                    f.write(traceback.format_exc())
                code = 3
            finally:
                os._exit(code)
        pids[pid] = w
    results = []
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        w = pids.pop(pid)
        path = os.path.join(work, "r%d" % w)
        if os.path.exists(path) and status == 0:
            with open(path, "rb") as f:
                results.extend(pickle.load(f))
        else:
            at = int.from_bytes(os.pread(pfd, 8, 8 * w), "little") - 1
            err = os.path.join(work, "e%d" % w)
            text = open(err).read() if os.path.exists(err) else "status %d" % status
            if os.path.exists(err):
                raise RuntimeError("harness error in case %s:\n%s" % (cases[at][0], text))
            results.append((at, [(None, "the process died (%s)" % text)], None, 0, set(), 0, 0, {}))
    os.close(pfd)
    for f in os.listdir(work):
        p = os.path.join(work, f)
        if os.path.isfile(p):
            os.unlink(p)
    try:
        os.rmdir(work)
    except OSError:
        pass
    results.sort(key=lambda r: r[0])
    return results


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)["findings"]


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def main(mod, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = mod.PID
    cases = list(mod.cases(tier))
    keys = [k for k, _ in cases]
    assert len(set(keys)) == len(keys), "duplicate case keys in %s" % pid
    if replay is not None:
        with open(replay) as f:
            wanted = json.load(f)["case"]
        cases = [c for c in cases if c[0] == wanted]
        assert cases, "case %r is not in the %s tier" % (wanted, tier)
    if hasattr(mod, "warm"):
        try:
            mod.warm()
        except Exception:
            traceback.print_exc()
            print("(warm-up failed; the cases below decide)")
    results = explore(mod, cases)

    known = {(k["case"]): k for k in known_findings() if k["property"] == pid}
    sigs, states = set(), set()
    checks = transitions = traces = done = 0
    notes = {}
    bad, seen_known = [], {}
    for i, viol, sig, ch, st, tr, tc, nt in results:
        done += 1
        checks += ch
        states |= st
        transitions += tr
        traces += tc
        if sig is not None:
            sigs.add(sig)
        for k, v in nt.items():
            notes[k] = notes.get(k, 0) + v
        for vkey, what in viol:
            full = keys_join(cases[i][0], vkey)
            if full in known:
                seen_known[full] = what
            else:
                bad.append((i, full, what))
    for k, what in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]["what"]))
    stale = [k for k in known if k not in seen_known] if replay is None and not bad else []
    for k in stale:
        print("note: the known finding %s was not observed in this run" % k)

    n = len(cases)
    samples = [{"case": cases[j][0], "params": jsonable(cases[j][1])} for j in sorted({0, n // 3, (2 * n) // 3, n - 1})] if n else []
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples,
        "assertions_checked": checks,
        "cases_enumerated": n,
        "exhaustive": done == n,
        "bound": getattr(mod, "BOUND", {}).get(tier, "") if isinstance(getattr(mod, "BOUND", None), dict) else getattr(mod, "BOUND", ""),
    }
    if mod.LEVEL == "model_checking":
        cov["states"] = len(states)
        cov["transitions"] = transitions
        cov["traces_validated_against_impl"] = traces
    if notes:
        cov["counters"] = notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    if replay is None:
        path = os.path.join(VERIF, "evidence", pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
    print("%s %s: %d cases, %d distinct outcomes, %d assertions%s, %.1f s" % (
        pid, tier, done, len(sigs), checks,
        ", %d states, %d transitions" % (len(states), transitions) if mod.LEVEL == "model_checking" else "", time.time() - t0))
    if bad:
        i, full, what = bad[0]
        rp = os.path.join(VERIF, "evidence", "%s.replay.json" % pid)
        if replay is None:
            with open(rp, "w") as f:
                json.dump({"property": pid, "tier": tier, "case": cases[i][0], "key": full, "what": what,
                           "params": jsonable(cases[i][1]),
                           "replay": "bash /verif/check.sh %s %s --replay %s" % (pid, tier, rp)}, f, indent=1)
        for _, k, w in bad[:8]:
            print("  violated: %s: %s" % (k, w))
        print("  (%d violations in %d cases)" % (len(bad), len({b[0] for b in bad})))
        print("VIOLATION property=%s replay=%s" % (pid, rp if replay is None else replay))
        return 1
    return 0


def keys_join(case, vkey):
    """A key that starts with @ names its subject by itself, however the cases are batched."""
    if vkey is None:
        return case
    return vkey[1:] if vkey.startswith("@") else "%s/%s" % (case, vkey)
