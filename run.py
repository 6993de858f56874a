#!/usr/bin/env python3
"""Supervisor of one check: builds the harness program of a property against /repo's
working tree, runs it (race detector on), turns what it observed into a verdict.

usage: run.py PROPERTY [quick|thorough]     (VERIF_SEED, VERIF_TIER from the environment)
       run.py --setup                       (build every harness program once)

Exit 0: the property held on everything explored.  Exit 1 + VIOLATION line: it was broken.
Exit 2: the check could not decide (build failure, environment).
"""
import hashlib, json, os, re, shutil, signal, socket, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MODPATH = "github.com/netsec-ethz/fpki"
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")

sys.dont_write_bytecode = True
from checks_table import CHECKS  # noqa: E402


def goenv():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    godir = "/opt/veriftools/go1.25.14/bin"
    if os.path.isdir(godir):
        e["PATH"] = godir + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off", CGO_ENABLED="1")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    os.environ["PATH"] = e["PATH"]
    for v in ("MYSQL_USER", "MYSQL_PASSWORD", "MYSQL_HOST", "MYSQL_PORT", "EXPENSIVE_TEST", "GORACE", "GODEBUG"):
        e.pop(v, None)
    return e


def make_overlay(scratch):
    rep = {}
    for root, _, files in os.walk(HARN):
        for f in files:
            if f.endswith(".go"):
                p = os.path.join(root, f)
                rep[os.path.join(REPO, "zzverif", os.path.relpath(p, HARN))] = p
    ov = os.path.join(scratch, "overlay.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": rep}, fh)
    # private copy of go.mod/go.sum: /repo's, plus the cached modules the harness uses
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(scratch, f))
    with open(os.path.join(scratch, "go.mod"), "a") as fh:
        fh.write("\nrequire github.com/anishathalye/porcupine v1.3.1\n")
    return ov


def build(prog, extra, scratch, env):
    ov = make_overlay(scratch)
    base = ["go", "build", "-overlay", ov, "-modfile", os.path.join(scratch, "go.mod"), "-tags", "verif", "-race"]
    out = os.path.join(scratch, "prog")
    cmds = [base + ["-o", out, "./zzverif/cmd/" + prog]]
    for name, pkg in (extra or {}).items():
        cmds.append(base + ["-o", os.path.join(scratch, name), pkg])
    for c in cmds:
        r = subprocess.run(c, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print("BUILD FAILED: " + " ".join(c) + "\n" + r.stdout[-6000:])
            return None
    return out


# ---------------------------------------------------------------- mysqld

class MySQL:
    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "mysql")
        self.proc = None

    def start(self, env):
        os.makedirs(os.path.join(self.dir, "tmp"))
        # The code under test writes its bulk load files to this path, fixed in its source.
        os.makedirs("/mnt/data/tmp", exist_ok=True)
        s = socket.socket()
        try:  # the programs' default port where it is free
            s.bind(("127.0.0.1", 3306)); port = 3306
        except OSError:
            s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]
        s.close()
        cnf = os.path.join(self.dir, "my.cnf")
        sock = os.path.join(self.dir, "s.sock")
        with open(cnf, "w") as fh:
            fh.write(f"""[mysqld]
user = root
bind-address = 127.0.0.1
port = {port}
socket = {sock}
pid-file = {self.dir}/pid
datadir = {self.dir}/data
tmpdir = {self.dir}/tmp
log-error = {self.dir}/err.log
mysqlx = OFF
max_allowed_packet = 1G
secure_file_priv = /mnt/data/tmp/
open_files_limit = 10000
max_connections = 1000
innodb_page_size = 64KB
innodb_buffer_pool_size = 512M
innodb_redo_log_capacity = 128M
innodb_log_buffer_size = 64M
innodb_flush_method = nosync
innodb_doublewrite = OFF
innodb_flush_log_at_trx_commit = 0
innodb_stats_on_metadata = 0
innodb_table_locks = 0
skip-log-bin
sync_binlog = 0
general-log = 0
performance_schema = OFF
""")
        r = subprocess.run(["mysqld", "--defaults-file=" + cnf, "--initialize-insecure"],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode != 0:
            print(open(self.dir + "/err.log").read()[-2000:]); return False
        self.proc = subprocess.Popen(["mysqld", "--defaults-file=" + cnf],
                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        env["MYSQL_HOST"], env["MYSQL_USER"] = "127.0.0.1", "root"
        if port != 3306:
            env["MYSQL_PORT"] = str(port)
        env["VERIF_MYSQL_SOCK"] = sock
        for _ in range(240):
            if self.proc.poll() is not None:
                break
            if subprocess.run(["mysqladmin", "--no-defaults", "-u", "root", "-S", sock, "ping"],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                return True
            time.sleep(0.25)
        print("mysqld did not start"); print(open(self.dir + "/err.log").read()[-2000:])
        return False

    def stop(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill(); self.proc.wait()


# ---------------------------------------------------------------- race / panic reports

FRAME = re.compile(r"^\s{2,}(\S+)\(.*\)\s*$|^(\S+)\(.*\)$")


def repo_frames(block):
    """Function names of the code under test in a stack text, outermost harness frames dropped."""
    fr = []
    for ln in block.splitlines():
        m = re.match(r"^\s*([\w./\-()*\[\]·,]+)\(.*\)$", ln)
        if m and MODPATH in m.group(1):
            fn = m.group(1)
            if "/zzverif/" in fn:
                continue
            fr.append(re.sub(r"\[\.\.\.\]", "", fn.replace(MODPATH + "/", "")))
    return fr


def race_reports(text):
    out = {}
    for blk in text.split("=================="):
        if "WARNING: DATA RACE" not in blk:
            continue
        parts = re.split(r"\n(?=Previous |Goroutine )", blk)
        access = [p for p in parts if re.search(r"(Read|Write|read|write) at ", p.split("\n")[0] + "\n" + "\n".join(p.split("\n")[:3]))]
        tops = []
        for a in access[:2]:
            f = repo_frames(a)
            if f:
                tops.append(f[0])
        if not tops:  # neither access is in the code under test
            tops = repo_frames(blk)[:1]
            if not tops:
                out.setdefault("HARNESS-RACE", blk)
                continue
        key = "race:" + "|".join(sorted(set(tops)))
        out.setdefault(key, blk.strip())
    return out


def panic_report(text):
    m = re.search(r"^(panic: .*|fatal error: .*)$", text, re.M)
    if not m:
        return None
    rest = text[m.start():]
    # first goroutine of the dump is the one that panicked
    first = re.split(r"\n\n(?=goroutine )", rest)
    body = "\n\n".join(first[:2]) if len(first) > 1 else rest[:6000]
    f = repo_frames(body)
    if not f and "all goroutines are asleep" in m.group(1):
        f = repo_frames(rest)[:1]
    if not f:
        return None
    return "panic:" + f[0], m.group(1) + "\n" + body[:6000]


# ---------------------------------------------------------------- main

def log_excerpt(log):
    m = re.search(r"^(panic: |fatal error: |SIGQUIT)", log, re.M)
    i = m.start() if m else len(log)
    return log[max(0, i - 1500):i + 3500]


def known_findings(prop):
    """known_findings.txt: 'known: property=<id> key=<violation key, %20 for blanks> <what fails>' lines;
    'fixed:' lines are a record and suppress nothing."""
    p = os.path.join(VERIF, "known_findings.txt")
    res = {}
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", ln.strip())
            if m and m.group(1) == prop:
                res[m.group(2).replace("%20", " ")] = m.group(3)
    return res


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    t0 = time.time()
    env = goenv()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > 3 << 30 else None
    scratch = tempfile.mkdtemp(prefix="fpkiverif-", dir=base)
    my = None
    try:
        prog = build(c["prog"], c.get("extra"), scratch, env)
        if prog is None:
            return 2
        tbuild = time.time() - t0
        if c.get("mysql"):
            my = MySQL(scratch)
            if not my.start(env):
                return 2
        work = os.path.join(scratch, "work"); os.makedirs(work)
        res = os.path.join(scratch, "result.json")
        racelog = os.path.join(scratch, "race")
        env["GORACE"] = f"halt_on_error=0 log_path={racelog} exitcode=0 history_size=3"
        env["GOTRACEBACK"] = "all"
        env["TMPDIR"] = work
        env["VERIF_BIN"] = scratch
        env["VERIF_ROOT"] = VERIF
        limit = c.get("limit", 600) if tier == "quick" else c.get("limit_thorough", 6 * 3600)
        logf = os.path.join(scratch, "log")
        hang = False
        with open(logf, "wb") as lf:
            pr = subprocess.Popen([prog, "-prop", prop, "-tier", tier, "-seed", str(seed), "-out", res],
                                  cwd=work, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = pr.wait(limit)
            except subprocess.TimeoutExpired:
                hang = True
                os.killpg(pr.pid, signal.SIGQUIT)
                try:
                    rc = pr.wait(20)
                except subprocess.TimeoutExpired:
                    rc = -9
            try:
                os.killpg(pr.pid, signal.SIGKILL)
            except OSError:
                pass
            pr.wait()
        log = open(logf, errors="replace").read()
        races = {}
        for f in os.listdir(scratch):
            if f.startswith("race."):
                races.update(race_reports(open(os.path.join(scratch, f), errors="replace").read()))
        try:
            result = json.load(open(res))
        except Exception:
            result = None
        viol = {}
        if result:
            for v in result.get("violations") or []:
                viol.setdefault(v["key"], v)
        harness_race = races.pop("HARNESS-RACE", None)
        if c.get("races", True):
            for k, blk in races.items():
                viol.setdefault(k, {"key": k, "what": "data race in the code under test", "detail": blk})
        finished = bool(result and result.get("finished"))
        if not finished:
            pa = panic_report(log)
            if pa:
                viol.setdefault(pa[0], {"key": pa[0], "what": "the code under test crashed", "detail": pa[1]})
        known = known_findings(prop)
        new = [v for k, v in viol.items() if k not in known]
        for k, what in known.items():
            if k in viol:
                print(f"KNOWN-FINDING: property={prop} {what} [{k}]")
        wall = time.time() - t0
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        if result:
            cov.update(result["coverage"])
        cov["race_detector_reports"] = len(races)
        cov["build_s"] = round(tbuild, 1)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
              "coverage": cov, "wall_s": round(wall, 2), "violations": len(new),
              "assumptions": (result or {}).get("assumptions") or []}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if new:
            os.makedirs(REPLAY, exist_ok=True)
            for v in new:
                h = hashlib.sha1(v["key"].encode()).hexdigest()[:10]
                path = os.path.join(REPLAY, f"{prop}-{h}.json")
                with open(path, "w") as fh:
                    json.dump({"property": prop, "tier": tier, "seed": seed, "violation": v,
                               "replay_cmd": f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} python3 run.py {prop} {tier}",
                               "log_tail": log[-3000:]}, fh, indent=1)
                print(f"  {v['key']}: {str(v.get('what'))[:600]}")
                print(f"VIOLATION property={prop} replay={path}")
            return 1
        if not finished:
            print(f"INCONCLUSIVE property={prop} rc={rc} hang={hang} (no verdict)\n" + log_excerpt(log))
            if harness_race:
                print(harness_race)
            return 2
        if harness_race:
            print("INCONCLUSIVE: data race inside the harness itself\n" + harness_race[:4000]); return 2
        if result.get("inconclusive"):
            print("INCONCLUSIVE: " + "; ".join(result["inconclusive"])); return 2
        print(f"OK property={prop} tier={tier} evaluations={cov['evaluations']} distinct={cov['distinct_nontrivial']} wall={wall:.1f}s (build {tbuild:.1f}s)")
        return 0
    finally:
        if my:
            my.stop()
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept: " + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def setup():
    env = goenv()
    scratch = tempfile.mkdtemp(prefix="fpkiverif-")
    try:
        ok = True
        for prog, extra in sorted({(c["prog"], tuple(sorted((c.get("extra") or {}).items()))) for c in CHECKS.values()}):
            t = time.time()
            if build(prog, dict(extra), scratch, env) is None:
                ok = False
            print(f"built {prog} in {time.time()-t:.1f}s", flush=True)
        return 0 if ok else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
