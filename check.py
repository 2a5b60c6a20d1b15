#!/usr/bin/env python3
"""Decides one property:  check.py <ID> [--tier quick|thorough]

Every check has the same shape.  A Quint specification in spec/ generates behaviours (ITF traces, all
randomness derived from VERIF_SEED) while its own invariants are checked; the harness in harness/ is
built against the working tree of /repo and steps the real code through them.  A verdict comes only
from what the real constraint systems compute, accept or refuse.
exit 0: held;  exit 1 + VIOLATION line: the real code contradicts the specification;  exit 2: no answer.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = 8
T0 = time.time()

# (build tag, package, file added to it)
OVERLAY = [("loc", "loc2index64", "export64.go"), ("loc", "loc2index32", "export32.go")]


class Error(Exception):
    pass


class Check:
    def __init__(self, pid, tier, seed, tags=""):
        self.pid, self.tier, self.seed, self.tags = pid, tier, seed, tags
        self.quick = tier == "quick"
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        shutil.copytree(os.path.join(ROOT, "spec"), os.path.join(self.work, "spec"))
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.jobs = {}          # group -> [future -> trace file]
        self.reports = []
        self.nspec = 0
        self.extra = {}
        self.build = self.pool.submit(self._build)
        self.apalache = []

    # ---- build ----
    def _env(self):
        e = dict(os.environ)
        e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
        return e

    def _build(self):
        vh = os.path.join(self.work, "vh")
        src = os.path.join(self.work, "harness")
        shutil.copytree(os.path.join(ROOT, "harness"), src)
        mod = os.path.join(src, "go.mod")
        txt = open(mod).read()
        if REPO != "/repo":
            txt = txt.replace("=> /repo", "=> " + REPO)
            open(mod, "w").write(txt)
        opt = ""
        if self.tags not in ("", "race"):
            # unexported functions are reached through a build overlay; /repo stays as it is
            ov = os.path.join(self.work, "overlay.json")
            json.dump({"Replace": {os.path.join(REPO, pkg, "zz_verif.go"): os.path.join(src, "overlay", f)
                                   for t, pkg, f in OVERLAY if t in self.tags.split(",")}}, open(ov, "w"))
            opt = "-tags %s -overlay %s " % (self.tags, ov)
        r = subprocess.run(["bash", "-c", ". ./env.sh && go build %s-o %s ." % (opt, vh)], cwd=src,
                           capture_output=True, text=True, env=self._env(), timeout=600)
        if r.returncode != 0:
            raise Error("harness does not build against the tree:\n" + r.stderr[-3000:])
        if "race" in self.tags:
            self.race = self.pool.submit(self._race, src)
        if "prox" in self.tags:
            # the proximity program as it is, and with a driver for its (unexported) functions
            ov = os.path.join(self.work, "prox.json")
            json.dump({"Replace": {os.path.join(REPO, "proximity", "zz_verif.go"): os.path.join(src, "overlay", "proxdriver.go")}}, open(ov, "w"))
            e = self._env()
            e["GOFLAGS"] = "-mod=readonly"
            for name, opt in (("prox", []), ("proxdriver", ["-overlay", ov])):
                r = subprocess.run(["bash", "-c", '. "$0/env.sh"; export GOFLAGS=-mod=readonly; exec go build -o "$@"', src,
                                    os.path.join(self.work, name)] + opt + ["./proximity"], cwd=REPO, capture_output=True, text=True, env=e, timeout=600)
                if r.returncode != 0 and name == "prox":
                    raise Error("the proximity program does not build:\n" + r.stderr[-3000:])
        return vh

    def _race(self, src):
        exe = os.path.join(self.work, "vhrace")
        r = subprocess.run(["bash", "-c", ". ./env.sh && CGO_ENABLED=1 go build -race -o %s ." % exe], cwd=src,
                           capture_output=True, text=True, env=self._env(), timeout=800)
        if r.returncode != 0:
            raise Error("harness does not build with the race detector:\n" + r.stderr[-3000:])
        return exe

    def vh_race(self, cmd, files, *args, timeout=800):
        """the same replay under the race detector; accesses made by zk-Location's own code are violations"""
        self.build.result()
        exe = self.race.result()
        out = os.path.join(self.work, "report%d.json" % len(self.reports))
        log = os.path.join(self.work, "race")
        e = dict(os.environ)
        e["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 history_size=2" % log
        r = subprocess.run([exe, cmd, "-out", out] + [str(a) for a in args] + files, capture_output=True, text=True,
                           timeout=timeout, cwd=self.work, env=e)
        if r.returncode != 0:
            raise Error("harness %s (race): rc=%d %s" % (cmd, r.returncode, r.stderr[-3000:]))
        rep = json.load(open(out))
        rep["cmd"] = cmd + " (race detector)"
        for f in sorted(os.listdir(self.work)):
            if f.startswith("race."):
                for d in races(open(os.path.join(self.work, f)).read()):
                    if len(rep.get("violations") or []) < 20:
                        rep["violations"] = (rep.get("violations") or []) + [{"kind": "data race", "desc": d, "replay": {"race": d}}]
        self.reports.append(rep)
        return rep

    def h3ref(self):
        """H3's reference implementation (C sources in the module cache), against which the specification is tested"""
        exe = os.path.join(self.work, "h3ref")
        r = subprocess.run(["bash", "-c", '. ./env.sh; d=$(go list -m -f "{{.Dir}}" github.com/uber/h3-go/v4) && '
                            'gcc -O1 -std=c99 -DH3_HAVE_VLA=1 -I"$d" -o "$0" ref/h3ref.c "$d"/h3_*.c -lm', exe],
                           cwd=os.path.join(self.work, "harness"), capture_output=True, text=True, env=self._env(), timeout=300)
        if r.returncode != 0:
            raise Error("the reference implementation of H3 does not build: " + r.stderr[-1000:])
        return ["-h3ref", exe]

    def prox_args(self):
        self.build.result()
        d = os.path.join(self.work, "proxdriver")
        return ["-prox", os.path.join(self.work, "prox")] + (["-prox-driver", d] if os.path.exists(d) else [])

    # ---- specification side ----
    def sub_seed(self, *what):
        d = hashlib.sha256(repr((self.pid, self.tier, self.seed) + what).encode()).digest()
        return int.from_bytes(d[:6], "big")

    def gen(self, group, module, consts, steps, procs=1, step="step", inv=None, init="init", timeout=600, shards=False):
        """simulate `module`; returns immediately, files(group) waits for the traces"""
        for p in range(procs):
            self.jobs.setdefault(group, []).append(
                self.pool.submit(self._gen, group, module, dict(consts), steps, p, procs, step, inv, init, timeout, shards))

    def _gen(self, group, module, consts, steps, p, procs, step, inv, init, timeout, shards):
        if shards:
            consts["SHARD"], consts["SHARDS"] = p, procs
        name = "run_%s_%d" % (re.sub(r"\W", "_", group), p)
        d = os.path.join(self.work, "spec")
        args = ", ".join("%s=%s" % (k, lit(v)) for k, v in consts.items())
        imp = "import %s%s.* from \"./%s\"" % (module, "(%s)" % args if args else "", module)
        open(os.path.join(d, name + ".qnt"), "w").write("module m1 { %s }\n" % imp)
        out = os.path.join(self.work, name + ".itf.json")
        cmd = ["quint", "run", "--main=m1", "--max-samples=1", "--max-steps=%d" % steps, "--init=" + init, "--step=" + step,
               "--seed=%d" % self.sub_seed(group, p), "--out-itf=" + out, "--verbosity=1"]
        if inv:
            cmd.append("--invariant=" + inv)
        cmd.append(name + ".qnt")
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=self._env())
        if r.returncode != 0 or not os.path.exists(out):
            raise Error("specification run %s failed: %s" % (name, (r.stdout + r.stderr)[-2000:]))
        return out

    def files(self, *groups):
        return [f.result() for g in groups for f in self.jobs[g]]

    def prove(self, module, inv, steps, consts=None, init="init", step="step", timeout=900):
        """Apalache: every behaviour of at most `steps` transitions satisfies inv"""
        def run():
            d = os.path.join(self.work, "spec")
            name = "ver_%s_%s" % (module, inv)
            args = ", ".join("%s=%s" % (k, lit(v)) for k, v in (consts or {}).items())
            open(os.path.join(d, name + ".qnt"), "w").write("module m1 { import %s%s.* from \"./%s\" }\n" % (
                module, "(%s)" % args if args else "", module))
            r = subprocess.run(["quint", "verify", "--main=m1", "--invariant=" + inv, "--max-steps=%d" % steps,
                                "--init=" + init, "--step=" + step, name + ".qnt"], cwd=d,
                               capture_output=True, text=True, timeout=timeout, env=self._env())
            if r.returncode != 0:
                raise Error("Apalache does not confirm %s.%s: %s" % (module, inv, (r.stdout + r.stderr)[-1500:]))
            return "%s.%s: no violation in all behaviours of <= %d steps" % (module, inv, steps)
        self.apalache.append(self.pool.submit(run))

    # ---- code side ----
    def vh(self, cmd, files, *args, timeout=800):
        exe = self.build.result()
        out = os.path.join(self.work, "report%d.json" % len(self.reports))
        r = subprocess.run([exe, cmd, "-out", out] + [str(a) for a in args] + files, capture_output=True, text=True,
                           timeout=timeout, cwd=self.work)
        if r.returncode != 0:
            raise Error("harness %s: rc=%d %s" % (cmd, r.returncode, r.stderr[-3000:]))
        rep = json.load(open(out))
        rep["cmd"] = cmd
        self.reports.append(rep)
        return rep

    # ---- outcome ----
    def finish(self, level, rule, assumptions=()):
        proofs = [f.result() for f in self.apalache]
        viol = [v for r in self.reports for v in (r.get("violations") or [])]
        known = {}
        for r in self.reports:
            for k, l in (r.get("known") or {}).items():
                known.setdefault(k, []).extend(l)
        listed = known_findings()
        for k in list(known):
            if (self.pid, k) not in listed:
                viol += [{"kind": "unlisted", "desc": d, "replay": d} for d in known.pop(k)]
        counts = {}
        for r in self.reports:
            for k, n in (r.get("counts") or {}).items():
                key = r["cmd"] + ": " + k
                counts[key] = counts.get(key, 0) + n
        ev = sum(r["evaluations"] for r in self.reports)
        states = max([0] + [r["states"] for r in self.reports]) if len(self.reports) == 1 else sum(
            len(v) for v in [self.jobs]) and sum(self.nstates(f) for g in self.jobs for f in self.files(g))
        samples = [s for r in self.reports for s in (r.get("samples") or [])][:8]
        cov = {"evaluations": ev, "distinct_nontrivial": sum(r["distinct"] for r in self.reports), "rule": rule,
               "states": states, "transitions": max(0, states - sum(len(v) for v in self.jobs.values())),
               "traces_validated_against_impl": sum(len(v) for v in self.jobs.values()),
               "samples": samples, "counts": counts}
        ratios = {}
        for r in self.reports:
            for k, v in (r.get("ratios") or {}).items():
                ratios[k] = max(ratios.get(k, 0), round(v, 3))
        if ratios:
            cov["largest_error_over_admissible_error"] = ratios
        if proofs:
            cov["model_checked"] = proofs
        cov.update(self.extra)
        evid = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(evid, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        for k, l in known.items():
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, listed[(self.pid, k)]))
        if viol:
            os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
            path = os.path.join(ROOT, "out", "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            json.dump({"property": self.pid, "violations": viol}, open(path, "w"), indent=1)
            for v in viol[:5]:
                print("  [%s] %s" % (v["kind"], v["desc"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, ev, cov["distinct_nontrivial"], time.time() - T0))
        return 0

    def nstates(self, f):
        n = 0
        with open(f) as fh:
            n = fh.read().count('"#meta":{"index"') or 0
        if n == 0:
            n = len(json.load(open(f))["states"])
        return n

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.work, ignore_errors=True)


def races(text):
    """the race reports in which code of zk-Location made a conflicting access, itself or through the standard library"""
    found = []
    for part in text.split("=================="):
        if "WARNING: DATA RACE" not in part:
            continue
        mine = []
        for block in re.split(r"\n\n", part):
            m = re.search(r"(Read|Write|Previous read|Previous write) at ", block)
            if not m:
                continue
            frames = re.findall(r"^  (\S+)\(.*\)\n\s+(\S+):(\d+)", block, re.M)
            # the first frame outside Go's own libraries
            own = next(((f, p, n) for f, p, n in frames if f.startswith("main.") or ("/" in f and "." in f.split("/")[0])), None)
            mine.append(own if own and own[0].startswith("github.com/tumberger/zk-Location/") else None)
        if any(mine):
            found.append("unsynchronised accesses by " + " and ".join("%s (%s:%s)" % (m[0], os.path.basename(m[1]), m[2]) if m else "others" for m in mine))
    return sorted(set(found))


def lit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, tuple):
        return "(%s)" % ", ".join(lit(x) for x in v)
    if isinstance(v, list):
        return "[%s]" % ", ".join(lit(x) for x in v)
    raise TypeError(v)


def known_findings():
    """entries 'KNOWN-FINDING: property=<id> key=<key> <text>' of known_findings.txt"""
    d = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m:
                d[(m.group(1), m.group(2))] = m.group(3).strip()
    return d


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, ROOT)
    import plans
    if pid not in plans.PLANS:
        print("unknown property", pid)
        return 2
    c = Check(pid, tier, seed, plans.TAGS.get(pid, ""))
    rc = 2
    try:
        rc = plans.PLANS[pid](c)
    except Error as e:
        print("ERROR property=%s: %s" % (pid, e))
    except subprocess.TimeoutExpired as e:
        print("ERROR property=%s: timeout %s" % (pid, str(e)[:300]))
    finally:
        c.close()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
