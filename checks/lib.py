"""Check runner: contracts in worker processes, property-specific rules, findings, evidence."""
import json, os, re, resource, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from engine import extract as X
from engine.terms import *
from engine.interp import Program
from engine import contract as C
from engine.compare import conjuncts

CONTRACTS = os.path.join(VERIF, "checks", "contracts")
KNOWN = os.path.join(VERIF, "known-findings.json")
WORKERS = int(os.environ.get("VERIF_WORKERS", "7"))
MEM = 4 << 30


def argtype(f, i):
    t = f["locals"][i]
    return f["_types"][t] if isinstance(t, int) else t


def mut_args(f):
    out = []
    for i in range(1, f["args"] + 1):
        t = argtype(f, i)
        if re.match(r"&('\w+ )?mut ", t) and "Formatter" not in t:
            out.append(i - 1)
    return out


def fn_kind(f, accept=None):
    k = C.kind_of_type(argtype(f, 0))
    if accept:
        return k + ":" + accept
    return k


def callees(f):
    for b in f["bb"]:
        if b is None:
            continue
        t = b["t"]
        if t[0] == "call":
            fr = t[1]
            yield fr


_refs_cache = {}


def refs(f):
    """function keys / names referenced anywhere in f (calls, closures, fn items)"""
    k = f["key"]
    r = _refs_cache.get(k)
    if r is None:
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if "k" in x and "m" in x:
                    out.add((x.get("k"), x.get("m")))
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)

        for b in f["bb"]:
            if b is not None:
                walk(b["s"])
                walk(b["t"])
        r = out
        _refs_cache[k] = r
    return r


def reach(P, key):
    """external operations reachable from key through the call graph"""
    seen, st, ext = set(), [key], set()
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        f = P.fn(k)
        if f is None:
            continue
        for kk, m in refs(f):
            if kk and P.fn(kk) is not None:
                st.append(kk)
            elif m:
                ext.add(m)
        for g in P.closures_of(k):
            st.append(g)
    return ext


def _closures(P):
    d = {}
    for k in P.fns:
        if "::{closure" in k:
            d.setdefault(k[: k.rindex("::{closure")], []).append(k)
    return d


def closures_of(self, k):
    if not hasattr(self, "_clo"):
        self._clo = _closures(self)
    return self._clo.get(k, [])


Program.closures_of = closures_of


def pool(jobs, fn, secs=200, mem=MEM, workers=WORKERS):
    """run fn(job) in forked workers; -> list of results (dict) or {'fail': reason}"""
    res = [None] * len(jobs)
    pids = {}
    i = 0
    while i < len(jobs) or pids:
        while i < len(jobs) and len(pids) < workers:
            r, w = os.pipe()
            sys.stdout.flush()
            p = os.fork()
            if p == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                    out = fn(jobs[i])
                except MemoryError:
                    out = {"fail": "memory limit"}
                except BaseException as e:
                    tb = traceback.extract_tb(sys.exc_info()[2])[-1]
                    out = {"fail": "%s: %s @%s:%s" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)}
                try:
                    with os.fdopen(w, "w") as h:
                        h.write(json.dumps(out))
                finally:
                    os._exit(0)
            os.close(w)
            pids[p] = (i, r, time.time())
            i += 1
        import select

        rs = [v[1] for v in pids.values()]
        rd, _, _ = select.select(rs, [], [], 1.0)
        for p, (j, r, t0) in list(pids.items()):
            if r in rd:
                buf = b""
                while True:
                    c = os.read(r, 1 << 20)
                    if not c:
                        break
                    buf += c
                os.close(r)
                os.waitpid(p, 0)
                del pids[p]
                try:
                    res[j] = json.loads(buf.decode())
                except ValueError:
                    res[j] = {"fail": "worker died"}
            elif time.time() - t0 > secs:
                os.kill(p, 9)
                os.close(r)
                os.waitpid(p, 0)
                del pids[p]
                res[j] = {"fail": "time limit"}
    return res


def judge_one(P, rec, seconds):
    t0 = time.time()
    f = P.fn(rec["fn"])
    name = rec["fn"]
    if f is None:
        if not rec.get("pub", True):
            return dict(viol=[], und=["private function no longer exists (its callers are checked with its body inlined)"], obl=1, s=0)
        return dict(viol=[["missing", "the function %s no longer exists" % name, ""]], und=[], obl=1, s=0)
    if f["args"] != len(rec["params"]):
        if not rec.get("pub", True):
            return dict(viol=[], und=["parameters of a private function changed (its callers are checked with its body inlined)"], obl=1, s=0)
        return dict(viol=[["signature", "the parameters of %s changed" % name, ""]], und=[], obl=1, s=0)
    if rec.get("ffi"):
        res, _ = C.evaluate_ffi(P, name, rec["params"], seconds, rec["ffi"])
    else:
        res = C.evaluate(P, name, rec["params"], rec["mut"], seconds, rec.get("cut", ()))
    viol, und, obl = C.judge(rec, res, rec["modes"])
    return dict(
        viol=[[v.key, v.what, v.detail] for v in viol],
        und=und,
        obl=obl,
        steps=res.steps,
        span=f.get("span"),
        s=round(time.time() - t0, 2),
        cond=[fshow(c)[:300] for c in conjuncts(C.accept_formula(res.ret, rec["kind"]))][:12],
    )


def reach_keys(P, roots):
    """workspace functions reachable from roots through the call graph"""
    seen, st = set(), list(roots)
    while st:
        k = st.pop()
        if k in seen:
            continue
        f = P.fn(k)
        if f is None:
            continue
        seen.add(k)
        seen.add(f["key"])
        for kk, m in refs(f):
            if kk:
                st.append(kk)
        st.extend(P.closures_of(k))
    return seen


def load_contracts(P, pid):
    """the contracts of a property, and those of the arithmetic wrappers its functions rely on by name"""
    path = os.path.join(CONTRACTS, pid + ".json")
    recs = json.load(open(path)) if os.path.exists(path) else []
    if pid == "X01":
        return outcome_contracts(P)
    if pid[0] not in "F" and pid != "A01" and recs:
        leaf = json.load(open(os.path.join(CONTRACTS, "LEAF.json")))
        used = reach_keys(P, [r["fn"] for r in recs])
        have = {r["fn"] for r in recs}
        # a wrapper that no longer exists is reported by the contracts that used it
        recs = recs + [r for r in leaf if r["fn"] in used and r["fn"] not in have]
    return recs


OUTCOME = re.compile(r"verify|validate|check|decrypt|process_credential|sign_credential|unblind|complete|combine|reconstruct|retrieve|is_valid|has_verkey|parse|compute_shared|_sign$|^sign$")


def outcome_contracts(P):
    """the acceptance conditions of every function that reports the outcome of a verification or of a chain of fallible steps"""
    recs, have = [], set()
    for fn in sorted(os.listdir(CONTRACTS)):
        pid = fn[:-5]
        if pid in ("X01", "F02", "LEAF", "A01", "Q01", "R02"):
            continue
        for r in json.load(open(os.path.join(CONTRACTS, fn))):
            k = (r["fn"], r.get("only"))
            if k in have or r.get("only") or r["kind"] not in ("result", "result_bool", "bool", "option") or "guards" not in r["modes"]:
                continue
            if not OUTCOME.search(r["fn"].split("::")[-1]):
                continue
            have.add(k)
            recs.append(dict(r, modes=["guards"]))
    return recs


def run_contracts(P, pid, seconds=120):
    recs = load_contracts(P, pid)
    out = pool(recs, lambda r: judge_one(P, r, seconds), secs=seconds * 2)
    viol, und, items = [], [], []
    obl = 0
    for rec, r in zip(recs, out):
        if "fail" in r:
            # the normal form could not be computed: fall back to the reachable operations
            now = reach(P, rec["fn"])
            lost = [m for m in rec.get("reach", []) if m not in now and not re.match(r"<?&?(core|alloc|std)::|<(\[|&|str)", m)]
            obl += 1
            if lost:
                viol.append((rec["fn"], "reach", "no longer reaches %s" % ", ".join(lost[:5]), r["fail"]))
            else:
                und.append("%s: normal form not computed (%s); reachable operations unchanged" % (rec["fn"], r["fail"]))
            continue
        obl += r["obl"]
        for k, w, d in r["viol"]:
            viol.append((rec["fn"], k, w, d))
        und.extend("%s: %s" % (rec["fn"], u) for u in r["und"])
        items.append(dict(function=rec["fn"], at=r.get("span"), obligations=r["obl"], steps=r.get("steps"), seconds=r["s"], accepts_only_if=r.get("cond")))
    return viol, und, obl, items, len(recs)


class Rule(object):
    """result of a property-specific rule"""

    def __init__(self):
        self.viol = []  # (construct, key, what, detail)
        self.und = []
        self.obl = 0
        self.items = []
        self.notes = {}

    def ob(self, construct, ok, key, what, detail=""):
        self.obl += 1
        if not ok:
            self.viol.append((construct, key, what, detail))
        return ok


def load_known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN)).get("findings", [])


EXPL = (
    "Static analysis of the MIR of the current tree: every listed function is abstractly interpreted (all callees inlined, "
    "loops summarised, states merged at joins) into an acceptance condition and value over its inputs; each conjunct of the "
    "reviewed contract is an obligation that must be entailed, each contracted value must be equal. Rule-based obligations "
    "(call graph, typestate, dataflow) are listed alongside."
)


def decide_property(P, pid, rules):
    viol, und, obl, items, ncon = run_contracts(P, pid)
    P.contract_viol = list(viol)
    notes = {}
    for rule in rules:
        try:
            r = rule(P)
        except (AssertionError, NameError):
            raise
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            und.append("rule %s not evaluated: %s: %s @%s:%s" % (rule.__name__, type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
            continue
        # a function whose behaviour the rule has proved needs no agreement with its contract
        done = getattr(r, "proved", set())
        viol = [v for v in viol if v[0] not in done] + r.viol
        und = [u for u in und if u.split(": ")[0] not in done] + r.und
        obl += r.obl
        items += r.items
        notes.update(r.notes)
    return viol, und, obl, items, ncon, notes


def main(pid, rules, level="other", technique=""):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        facts, info = X.extract()
    except X.ExtractError as e:
        print(str(e)[-3000:])
        path = replay(pid, [dict(construct="(build)", key="extract", what="the tree could not be analysed", detail=str(e)[-3000:])])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    P = Program(facts)
    P.facts = facts
    viol, und, obl, items, ncon, notes = decide_property(P, pid, rules)
    known = {(k["construct"], k["key"]): k for k in load_known() if k["property"] == pid and k.get("status", "open") == "open"}
    new, old = [], []
    for v in viol:
        (old if (v[0], v[1]) in known else new).append(v)
    seen = set()
    for v in old:
        if (v[0], v[1]) in seen:
            continue
        seen.add((v[0], v[1]))
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v[0], known[(v[0], v[1])]["what"]))
    nfn = {c: len(d["fns"]) for c, d in facts.items()}
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=level,
        wall_s=round(time.time() - t0, 2),
        coverage=dict(
            explanation=technique or EXPL,
            obligations=obl,
            discharged=obl - len(new) - len(old) - len(und),
            undecided=und[:40],
            known_findings=len(seen),
            contracts=ncon,
            functions_extracted=nfn,
            analysed=items[:200],
            checker_cmd="python3 checks/run.py %s" % pid,
            trusted_base=["rustc nightly MIR of the current tree", "models of std and crypto primitives in engine/models*.py", "reviewed contracts in checks/contracts/%s.json and rule tables in checks/" % pid],
            extract_s=info["extract_s"],
            **notes
        ),
    )
    if new:
        ev["violations"] = len(new)
        ev["coverage"]["violation_list"] = [dict(construct=v[0], key=v[1], what=v[2][:2000]) for v in new]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        path = replay(pid, [dict(construct=v[0], key=v[1], what=v[2], detail=v[3]) for v in new])
        for v in new[:20]:
            print("%s: [%s] %s" % (v[0], v[1], v[2][:1500]))
            if v[3]:
                print("    " + v[3][:1000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("property %s: %d obligations, %d undecided, %d known findings, %.1fs" % (pid, obl, len(und), len(seen), time.time() - t0))
    for u in und[:10]:
        print("  undecided: " + u[:600])
    return 0


def replay(pid, items):
    d = os.path.join(VERIF, "target", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".json")
    with open(p, "w") as f:
        json.dump(dict(property=pid, how="python3 checks/run.py %s" % pid, violations=items), f, indent=1)
    return p
