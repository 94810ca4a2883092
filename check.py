#!/usr/bin/env python3
"""Runtime monitoring of fastxdr: one check per property.

    check.py <C01..C15> <quick|thorough>
    check.py replay <replay file>
    check.py setup

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
CPUS = min(8, os.cpu_count() or 8)
T0 = time.time()
GB = 1 << 30

CORPUS = sorted(os.path.basename(p)[:-2] for p in glob.glob(os.path.join(HARNESS, "corpus", "*.x")))
CLEAN = ["c:" + c for c in CORPUS if not c.startswith("kf_")]


class Inconclusive(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTC_WRAPPER", None)
    return e


# ------------------------------------------------------------------ building


def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, n) for n in ("Cargo.toml", "Cargo.lock", "build.rs")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def fresh(target):
    """Cargo goes by modification times; this goes by content."""
    h = repo_hash()
    stamp = os.path.join(target, "repo.stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        for d in glob.glob(os.path.join(target, "**", ".fingerprint", "fastxdr-*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        open(stamp, "w").write(h)


def cargo(args, target, extra_env=None, toolchain=None):
    e = env()
    e.update(extra_env or {})
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--target-dir", target, "--message-format=json"] + args
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    libs, bins, dirs = {}, {}, set()
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"].replace("-", "_")
            for f in m["filenames"]:
                dirs.add(os.path.dirname(f))
                if f.endswith(".rlib"):
                    libs[n] = f
            if m.get("executable"):
                bins[m["target"]["name"]] = m["executable"]
    if p.returncode != 0:
        sys.stdout.write(p.stderr[-3000:])
        msgs = []
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
                msgs.append(m["message"].get("rendered") or m["message"]["message"])
        sys.stdout.write("\n".join(msgs)[:4000])
        raise Inconclusive("the build failed: " + " ".join(cmd))
    return libs, bins, dirs


class Built:
    def __init__(self, bin, flags=(), target="cargo", toolchain=None, extra_env=None, triple=None):
        t = os.path.join(BUILD, target)
        with Lock():
            fresh(t)
            args = ["--lib", "--bin", bin] + (["--target", triple] if triple else [])
            self.libs, bins, dirs = cargo(args, t, extra_env, toolchain)
            self.bin = bins[bin]
        self.deps = sorted(dirs | {os.path.join(t, triple or "", "debug", "deps")})
        self.flags = list(flags)
        self.sanitized = any("sanitizer" in f for f in flags)
        self.toolchain = toolchain
        log("built", bin, "from", REPO, "(%s)" % (toolchain or "stable"))

    def rustc(self, main, out, edition="2021", opt="0", extra=(), crate="shard"):
        cmd = ["rustc"] + (["+" + self.toolchain] if self.toolchain else [])
        cmd += ["--edition", edition, "--crate-name", crate, "--error-format=json", "--cap-lints", "allow"]
        cmd += ["-C", "opt-level=" + opt, "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "codegen-units=4"]
        for n in ("fastxdr", "thiserror", "bytes", "xv"):
            meta = os.path.splitext(self.libs[n])[0] + ".rmeta"
            if self.toolchain and os.path.exists(meta):
                # Nightly leaves the metadata out of the rlib.
                cmd += ["--extern", "%s=%s" % (n, meta)]
            cmd += ["--extern", "%s=%s" % (n, self.libs[n])]
        for d in self.deps:
            cmd += ["-L", "dependency=" + d]
        cmd += self.flags + list(extra) + [main, "-o", out]
        return subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def work(name):
    os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
    return tempfile.mkdtemp(prefix=name + "-", dir=os.path.join(BUILD, "work"))


def pool(f, xs):
    with cf.ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(f, xs))


# ------------------------------------------------------------------ running


def limits(mem, core=True):
    def f():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


def run(cmd, timeout, mem=None, cwd=None, extra_env=None, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE):
    e = env()
    e.update(extra_env or {})
    p = subprocess.Popen(cmd, stdin=stdin, stdout=stdout, stderr=subprocess.PIPE, cwd=cwd, env=e, preexec_fn=limits(mem), start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return "timeout", o, er


def status(rc):
    if rc == "timeout":
        return "killed after the wall-clock limit"
    if isinstance(rc, int) and rc < 0:
        try:
            return "died of " + signal.Signals(-rc).name
        except ValueError:
            return "died of signal %d" % -rc
    return "exit status %s" % rc


def lines(path):
    if not os.path.exists(path):
        return []
    out = []
    for l in open(path, errors="replace"):
        try:
            out.append(json.loads(l))
        except ValueError:
            pass
    return out


# ------------------------------------------------------------------ reporting


class Report:
    last = None

    def __init__(self, prop, tier, seed):
        Report.last = self
        self.pending = []  # what could not be decided
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evals = 0
        self.distinct = 0
        self.counts = {}
        self.samples = []
        self.violations = []
        self.nviolations = 0
        self.known = {}
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.min_evals = 1
        self.shapes = set()

    def add(self, stats):
        self.evals += stats.get("evals", 0)
        self.distinct += stats.get("distinct", 0)
        self.nviolations += stats.get("violations", 0)
        for k, v in stats.get("counts", {}).items():
            self.counts[k] = max(self.counts.get(k, 0), v) if k.startswith("max_") else self.counts.get(k, 0) + v
        for s in stats.get("samples", []):
            if len(self.samples) < 6:
                self.samples.append(s[:1500])
        for k, v in stats.get("known", {}).items():
            self.known.setdefault(k, v)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, what, **kw):
        kw["what"] = what
        self.violations.append(kw)

    def finish(self):
        known = json.load(open(os.path.join(VERIF, "known_findings.json")))
        listed = {(f["property"], f["id"]): f for f in known["findings"]}
        for k in sorted(self.known):
            f = listed.get((self.prop, k))
            if f:
                print("KNOWN-FINDING: property=%s %s: %s [%s]" % (self.prop, k, f["fails"], self.known[k]))
            else:
                self.violation("unlisted finding " + k, detail=self.known[k])
        n = max(len(self.violations), self.nviolations)
        if self.shapes:
            self.extra["declaration_shapes"] = len(self.shapes)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": dict(
                {
                    "evaluations": self.evals,
                    "distinct_nontrivial": self.distinct,
                    "rule": self.rule,
                    "samples": self.samples,
                    "observed": self.counts,
                    "known_findings_seen": self.known,
                },
                **self.extra
            ),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - T0, 1),
            "violations": n,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        log("%s: %d evaluations, %d distinct; %s" % (self.prop, self.evals, self.distinct, json.dumps(self.counts)[:1500]))
        if self.violations:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                p = os.path.join(REPLAYS, "%s-%s-%d.json" % (self.prop, self.tier, i))
                v.update({"property": self.prop, "seed": self.seed, "tier": self.tier, "rerun": "python3 %s/check.py replay %s" % (VERIF, p)})
                json.dump(v, open(p, "w"), indent=1, ensure_ascii=False)
                d = {k: (str(x)[:600]) for k, x in v.items() if k in ("origin", "type", "what", "detail", "input_hex", "err")}
                print("  ", json.dumps(d, ensure_ascii=False))
                print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            return 1
        if self.nviolations:
            raise Inconclusive("violations counted but none reported")
        if self.pending:
            raise Inconclusive("; ".join(self.pending[:3]))
        if self.evals < self.min_evals:
            raise Inconclusive("only %d executions observed" % self.evals)
        return 0


# ------------------------------------------------------------------ shards


def emit(b, rep, wd, first, derive, origins):
    """Runs the generator. Returns [{id, origin, ok, err, text}]."""
    chunks = [origins[i::CPUS] for i in range(CPUS)]
    chunks = [c for c in chunks if c]

    def one(job):
        ids, os_ = job
        rc, o, e = run([b.bin, "emit", wd, str(ids), derive] + os_, 300, None if b.sanitized else 8 * GB)
        got = [json.loads(l) for l in o.decode().splitlines()]
        if rc != 0 or len(got) < len(os_):
            if len(os_) == 1:
                got = [{"id": ids, "origin": os_[0], "ok": False, "err": "the generator " + status(rc), "text": ""}]
            else:
                got = [x for k, s in enumerate(os_) for x in one((ids + k, [s]))]
        return got

    jobs, n = [], first
    for c in chunks:
        jobs.append((n, c))
        n += len(c)
    out = [x for r in pool(one, jobs) for x in r]
    return out


def main_rs(wd, name, specs, glue="glue"):
    p = os.path.join(wd, name + ".rs")
    with open(p, "w") as f:
        f.write("#![allow(warnings)]\n")
        f.write("#[global_allocator]\nstatic A: xv::meter::Counting = xv::meter::Counting;\n")
        for s in specs:
            f.write('#[path = "s%d_gen.rs"] mod s%d_gen;\n#[path = "s%d_%s.rs"] mod s%d_glue;\n' % (s["id"], s["id"], s["id"], glue, s["id"]))
        f.write("static SPECS: &[xv::mon::ShardSpec] = &[\n")
        for s in specs:
            f.write('    xv::mon::ShardSpec { id: %d, origin: "%s", ops: s%d_glue::OPS },\n' % (s["id"], s["origin"], s["id"]))
        f.write("];\nfn main() { xv::mon::main(SPECS) }\n")
    return p


def blamed(stderr, specs):
    """Spec id -> first diagnostic that points into its files."""
    bad, unknown = {}, None
    for l in stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error":
            continue
        ids = []

        def spans(x):
            for s in x.get("spans", []):
                while s:
                    k = re.search(r"s(\d+)_(gen|glue|text)\.rs$", s["file_name"])
                    if k:
                        ids.append((int(k.group(1)), k.group(2)))
                    s = (s.get("expansion") or {}).get("span")
            for c in x.get("children", []):
                spans(c)

        spans(m)
        text = m.get("rendered") or m.get("message")
        if ids:
            bad.setdefault(ids[0][0], text)
        elif not m["message"].startswith("aborting"):
            unknown = unknown or text
    return bad, unknown


def compile_shard(b, wd, name, specs, edition="2021", extra=(), opt="0", glue="glue"):
    """Compiles the specs together, isolating those that do not compile.
    Returns (binary or None, good specs, [(spec, diagnostic)])."""
    bad = []
    specs = list(specs)
    while specs:
        out = os.path.join(wd, name)
        p = b.rustc(main_rs(wd, name, specs, glue), out, edition=edition, extra=extra, opt=opt, crate=name)
        if p.returncode == 0:
            return out, specs, bad
        who, unknown = blamed(p.stderr, specs)
        hit = [s for s in specs if s["id"] in who]
        if hit:
            bad += [(s, who[s["id"]]) for s in hit]
            specs = [s for s in specs if s["id"] not in who]
        elif len(specs) == 1:
            bad.append((specs[0], unknown or p.stderr[-2000:]))
            specs = []
        else:
            # No diagnostic points at a specification: try each alone.
            rest = []
            for s in specs:
                _, g, x = compile_shard(b, wd, name + "x", [s], edition, extra, opt, glue)
                bad += x
                rest += g
            if len(rest) == len(specs):
                raise Inconclusive("a shard does not compile, each of its specifications does: %s" % unknown)
            specs = rest
    return None, [], bad


KIND_RULES = {
    "C01": "A case is a reference RFC 4506 encoding of a random or boundary value given to T::try_from(Bytes); distinct by (specification, type, bytes), non-trivial when the encoding is not empty.",
    "C02": "A case is a value whose wire_size() (constructed and decoded) and consumed bytes are compared with its reference encoding; distinct by (specification, type, bytes), non-trivial when it is not empty.",
    "C03": "A case is a byte string with a suffix, leading offset and storage kind given to both decoder families; distinct by (specification, type, bytes), non-trivial when not empty.",
    "C04": "A case is a hostile byte string (truncation, boundary word, random words, deep chains) given to both decoders; distinct by (specification, type, bytes), non-trivial when not empty.",
    "C05": "A case is an encoding with one length or count replaced, exactly at a maximum, or a strict prefix; distinct by (specification, type, bytes).",
    "C06": "A case is an encoding with one boolean, enum value, marker, discriminant or string replaced, or selecting one declared label; distinct by (specification, type, bytes).",
    "C08": "A case is a decoded value with opaque leaves whose addresses are compared with the wire offsets; distinct by (specification, type, bytes), non-trivial with at least one non-empty payload.",
    "C09": "A case is one decode under the counting allocator; distinct by (specification, type, bytes).",
}

SUBSET = [
    "The supported subset is what DESIGN.md lists (section Subset); its constructs come from the README and the test suite.",
    "The reference encoder, decoder and type model in /verif/harness (written from RFC 4506) are right.",
    "rustc, std and the bytes crate are right.",
]

# (random specifications quick, scale quick)
SIZES = {"C01": 96, "C02": 96, "C03": 72, "C04": 56, "C05": 80, "C06": 80, "C08": 72, "C09": 72}


def record_emission(rep, emitted, report):
    good = []
    for s in emitted:
        rep.count("specifications_generated")
        if s["ok"]:
            good.append(s)
        elif report:
            rep.violation("the generator does not generate a supported specification", origin=s["origin"], text=s["text"], detail=s["err"], kind="generate")
        else:
            rep.count("specifications_skipped")
    return good


def run_shard(rep, prop, tier, seed, binary, specs, wd, name, scale=1, timeout=700, mem=5 * GB, extra_env=None, part="0/1"):
    name += "-" + part.replace("/", "of")
    out, prog = os.path.join(wd, name + ".out"), os.path.join(wd, name + ".prog")
    cmd = [binary, "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--progress", prog, "--scale", str(scale), "--part", part]
    rc, o, e = run(cmd, timeout, mem, extra_env=extra_env)
    if os.environ.get("XV_TRACE"):
        for l in e.decode(errors="replace").splitlines():
            if l.startswith("SLOW"):
                log(l)
    return rc, lines(out), open(prog, errors="replace").read() if os.path.exists(prog) else "", e.decode(errors="replace")


PARTS = 8


def run_parts(jobs, f):
    """Runs every (shard, part), so that one slow type does not keep the rest waiting.
    Returns the results per shard."""
    todo = [(j, k) for k in range(PARTS) for j in range(len(jobs)) if jobs[j]]
    got = pool(lambda t: f(jobs[t[0]], "%d/%d" % (t[1], PARTS)), todo)
    out = [[] for _ in jobs]
    for (j, _), r in zip(todo, got):
        out[j].append(r)
    return out


def progress(p):
    try:
        n = int(p[:8])
        f = p[8 : 8 + n].split("|")
        return {"origin": f[0], "type": f[1], "what": f[2], "input_len": f[3], "input_hex": f[4] if len(f) > 4 else ""}
    except (ValueError, IndexError):
        return {}


def collect(rep, b, res, texts, crash_counts=True):
    rc, ls, prog, err = res
    for l in ls:
        if l["kind"] == "violation":
            d = {k: v for k, v in l.items() if k != "kind"}
            d["text"] = texts.get(l["origin"], "")
            rep.violation(d.pop("what"), **d)
        else:
            rep.add(l)
    if rc == 0:
        return
    if rc == 79:
        return rep.pending.append("monitor panic at %s\n%s" % (progress(prog), err[-2000:]))
    if rc == "timeout":
        return rep.pending.append("a shard did not finish: %s" % progress(prog))
    d = progress(prog)
    what = {77: "requests memory far beyond any bound", 78: "does not terminate"}.get(rc, status(rc))
    d["text"] = texts.get(d.get("origin"), "")
    d["case"] = d.pop("what", "")
    d["detail"] = err[-1500:]
    d["kind"] = "crash"
    if crash_counts:
        rep.violation("the decoder " + what, **d)
    else:
        rep.pending.append("the decoder " + what + " " + json.dumps(d)[:800])


def giants(prop, tier, seed):
    """Specifications with hundreds of members, fields, arms, labels or declarations."""
    kinds = range(8) if prop in ("C01", "C06", "C07") or tier == "thorough" else [(int(prop[1:]) + seed + k) % 8 for k in (0, 3, 6)]
    return ["g:%d:%d:%d" % (seed, k, [257, 260, 280, 300, 320][(seed + k) % 5]) for k in kinds]


def matrices(seed):
    """All small shapes of unions, structs, typedefs and declarations."""
    return ["m:%d:%d" % (seed, k) for k in range(7)]


def chosen(b, profile, seed, first, n, held):
    """`n` random specifications: one in four as they come, the others those out of a pool
    of twenty times as many that between them hold the most shapes of declarations."""
    plain = n // 4
    out = ["r:%s:%d:%d" % (profile, seed, first + i) for i in range(plain)]
    rc, o, e = run([b.bin, "cover", profile, str(seed), str(first + plain), str(n - plain), str(20 * (n - plain))] + out + held, 300, 8 * GB)
    got = o.decode().split()
    if rc != 0 or len(got) != n - plain:
        raise Inconclusive("no specifications: %s %s" % (status(rc), e.decode()[-500:]))
    return out + got


def features(b, rep, origins):
    rc, o, e = run([b.bin, "features"] + origins, 120, 8 * GB)
    rep.shapes |= set(o.decode().splitlines())


def shards(rep, prop, tier, seed, nrandom, first_index=0, corpus=True, b=None, tagname="shard", scale=1, mem=5 * GB, extra=(), timeout=800, derive="", opt="0", extra_env=None, only=None):
    b = b or Built("xdrv")
    wd = work(prop)
    try:
        profile = prop
        origins = only or ((CLEAN + giants(prop, tier, seed) + matrices(seed) if corpus else []) + chosen(b, profile, seed, first_index, nrandom, CLEAN))
        kf = {"C01": ["c:kf_bare"], "C02": ["c:kf_bare"], "C03": ["c:kf_bare"]}.get(prop, []) if corpus and not only else []
        em = emit(b, rep, wd, 0, derive, origins + kf)
        good = record_emission(rep, em, prop in ("C01",))
        features(b, rep, [s["origin"] for s in good])
        texts = {s["origin"]: s["text"] for s in em}
        # Balanced by size of the text.
        good.sort(key=lambda s: -len(s["text"]))
        groups = [good[i::CPUS] for i in range(min(CPUS, len(good)))]
        log("generated", len(good), "of", len(em), "specifications")

        def one(i):
            name = "%s%d" % (tagname, i)
            binary, ok, bad = compile_shard(b, wd, name, groups[i], extra=extra, opt=opt)
            return binary and (name, binary, ok), bad

        rs = pool(one, range(len(groups)))
        if prop in ("C03", "C04", "C05", "C06", "C09"):
            # Modules that lack a documented item still decode.
            odd = [s for _, bad in rs for s, _ in bad]
            if os.environ.get("XV_TEXT"):
                odd = good
            odd = [odd[i::CPUS] for i in range(min(CPUS, len(odd)))]

            def text(i):
                name = "text%d" % i
                binary, ok, bad = compile_shard(b, wd, name, odd[i], extra=extra, opt=opt, glue="text")
                return binary and (name, binary, ok), bad

            more = pool(text, range(len(odd)))
            for x, _ in more:
                rep.count("specifications_known_by_debug", len(x[2]) if x else 0)
            rs = [(x, []) for x, _ in rs] + more
        log("compiled", len(groups), "shards")
        res = run_parts([x for x, _ in rs], lambda j, part: run_shard(rep, prop, tier, seed, j[1], j[2], wd, j[0], scale, timeout, mem, extra_env=extra_env, part=part))
        for (_, bad), results in zip(rs, res):
            for s, d in bad:
                if prop == "C01":
                    rep.violation("the generated module does not compile", origin=s["origin"], text=s["text"], detail=d[:3000], kind="compile")
                else:
                    rep.count("specifications_skipped")
            for x in results:
                collect(rep, b, x, texts, crash_counts=prop != "C08")
        log("ran", len(groups), "shards")
        if rep.counts.get("specifications_skipped", 0) * 2 > rep.counts.get("specifications_generated", 0):
            if not rep.violations:
                raise Inconclusive("most specifications do not generate or compile")
    finally:
        if not os.environ.get("XV_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
    return b


def kf4(rep, b, seed):
    """C04: the recorded stack overflow on very deep optional chains (own process)."""
    wd = work("KF4")
    try:
        em = emit(b, rep, wd, 0, "", ["c:kf_chain"])
        if not em[0]["ok"]:
            return
        binary, ok, bad = compile_shard(b, wd, "kf4", em)
        if not binary:
            return
        rc, ls, prog, err = run_shard(rep, "KF4", "quick", seed, binary, em, wd, "kf4", timeout=120, mem=None)
        if isinstance(rc, int) and rc < 0 and ("overflow" in err or rc == -signal.SIGSEGV):
            rep.known["KF4"] = "a chain of 1000000 links on an 8 MB stack: " + status(rc) + " (stack overflow)"
        elif rc != 0:
            rep.violation("decoding a chain of 1000000 optional links on an 8 MB stack " + status(rc), text=em[0]["text"], detail=err[-800:])
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def words(rep, b, tier, seed):
    """C06: (nearly) every 32-bit word in every position where only declared ones count."""
    wd = work("C06w")
    try:
        rc, o, e = run([b.bin, "gen", os.path.join(HARNESS, "c06", "words.x")], 60, 4 * GB)
        if rc != 0:
            raise Inconclusive("words.x is not generated: %s" % e.decode()[-500:])
        open(os.path.join(wd, "c06_gen.rs"), "wb").write(o)
        shutil.copy(os.path.join(HARNESS, "c06", "main.rs"), os.path.join(wd, "c06.rs"))
        p = b.rustc(os.path.join(wd, "c06.rs"), os.path.join(wd, "c06"), opt="2", crate="c06")
        if p.returncode != 0:
            _, msg = blamed(p.stderr, [])
            raise Inconclusive("the word program does not compile: %s" % (msg or p.stderr)[:2000])
        out = os.path.join(wd, "c06.out")
        rc, o, e = run([os.path.join(wd, "c06"), "--seed", str(seed), "--tier", tier, "--out", out], 600 if tier == "quick" else 7200, 8 * GB)
        if rc != 0:
            raise Inconclusive("word program: %s %s" % (status(rc), e.decode(errors="replace")[-800:]))
        text = open(os.path.join(HARNESS, "c06", "words.x")).read()
        for l in lines(out):
            if l["kind"] == "violation":
                d = {k: v for k, v in l.items() if k != "kind"}
                rep.violation(d.pop("what"), text=text, kind="words", **d)
            else:
                rep.add(l)
        log("tried the words")
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def decode_check(prop, tier, seed):
    rep = Report(prop, tier, seed)
    rep.rule = KIND_RULES[prop]
    rep.assumptions = list(SUBSET)
    n = SIZES[prop]
    rep.min_evals = 1000
    if tier == "quick":
        b = shards(rep, prop, tier, seed, n)
    else:
        budget = float(os.environ.get("XV_BUDGET", "1200"))
        b, k = None, 0
        while (k == 0 or time.time() - T0 < budget) and not rep.violations:
            b = shards(rep, prop, "thorough" if k == 0 else "quick", seed, 96, first_index=10_000 * k, corpus=k % 4 == 0, b=b, scale=4 if k else 1, timeout=3000)
            k += 1
        rep.extra["rounds"] = k
        if not rep.violations:
            asan(rep, prop, seed)
    if prop == "C06" and not rep.violations:
        words(rep, b, tier, seed)
    if prop == "C04":
        kf4(rep, b, seed)
        rep.assumptions.append("Stack: 2 GB for the monitors' thread, chains up to the lengths counted in `observed`; see KF4.")
    return rep.finish()


def asan(rep, prop, seed):
    """The same monitors in AddressSanitizer builds of everything but std."""
    triple = "x86_64-unknown-linux-gnu"
    try:
        b = Built("xdrv", flags=["-Zsanitizer=address", "--target", triple], target="asan", toolchain="nightly", extra_env={"RUSTFLAGS": "-Zsanitizer=address"}, triple=triple)
    except Inconclusive as e:
        log("no ASan build:", e)
        rep.extra["asan"] = "not available"
        return
    before = rep.evals
    shards(rep, prop, "quick", seed + 1000, 24, b=b, tagname="asan", mem=None, timeout=3000, extra_env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"})
    rep.extra["asan_evaluations"] = rep.evals - before


# ------------------------------------------------------------------ C07


KF7_TEXTS = {
    "KF2": ["const A = 1; enum e { X = A, Y = 2 }; struct s { e a; };"],
    "KF3": ["typedef opaque n<>; struct s { n a; int b; };", "const n = 3; struct s { int a; };"],
    "KF5": ["struct s { unsigned int a<>; };", "typedef unsigned int t<>; struct s { t a; };"],
    "KF7": ["enum fn { A = 1 }; struct s { fn a; };", "struct impl { int a; };", "enum e { A = 1, match = 2 }; struct s { e a; };"],
    "KF8": ["struct Error { int a; };", "typedef opaque Bytes<>;", "struct String { int a; };", "struct Option { int a; }; struct x { Option *n; int k; };"],
}


def c07(tier, seed):
    prop = "C07"
    rep = Report(prop, tier, seed)
    rep.rule = "A case is one (specification, derive line, edition): the generated module and an accessor program that names every type, field, variant and trait impl with its documented shape are compiled by rustc; values are then built and their Debug output compared with the documented shape. Distinct by specification text, derive line and edition; all are non-trivial."
    rep.assumptions = list(SUBSET) + ["Editions 2018 and 2021; derive lines keep Debug and PartialEq (DESIGN.md)."]
    b = Built("xdrv")
    ALL, FEW, FLOATLESS = "all", "few", "without floats"
    configs = [("", "2018"), ("#[derive(Debug, PartialEq, Clone)]", "2021"), ("#[derive(\n    Debug,\n    Clone,\n    PartialEq,\n)]\n/// Text.\n#[allow(dead_code)]", "2021")]
    if tier == "thorough":
        configs += [("", "2021"), ("#[derive(Debug, PartialEq, Clone)]\n#[allow(dead_code)]", "2018"), ("#[derive(Debug, Clone, PartialEq, PartialOrd)]", "2021")]
    configs = [(d, e, ALL) for d, e in configs] + [
        ("#[derive(Debug, Clone, PartialEq, PartialOrd)]", "2021", FEW),
        ("#[derive(PartialEq)]\n#[derive(Debug)]", "2018", FEW),
        ("// About derives.\n#[derive(std::fmt::Debug, std::cmp::PartialEq, std::clone::Clone)] // all\n", "2021", FEW),
        ("  #[cfg_attr(all(), derive(Debug, PartialEq, Clone))]\t", "2021", FEW),
        ("#[derive(Debug,PartialEq)]#[must_use]", "2018", FEW),
        ("#[allow(dead_code)]\r\n#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]", "2021", FLOATLESS),
    ]
    rounds, budget = 0, float(os.environ.get("XV_BUDGET", "1200"))
    seen = set()
    while rounds == 0 or (tier == "thorough" and time.time() - T0 < budget and not rep.violations):
        n = 80 if tier == "quick" else 160
        origins = (CLEAN + giants(prop, tier, seed) + matrices(seed) if rounds == 0 else []) + chosen(b, "C01", seed, 10_000 * rounds, n * 2 // 3, CLEAN) + chosen(b, "C06", seed, 10_000 * rounds, n // 3, CLEAN)
        for derive, edition, which in configs:
            wd = work(prop)
            try:
                some = origins
                if which != ALL:
                    # A few, other ones with each line.
                    k = [c[0] for c in configs].index(derive)
                    some = [o for o in origins if not o.startswith("g:")]
                    if which == FLOATLESS:
                        texts = pool(lambda o: run([b.bin, "text", o], 60, 4 * GB)[1], some)
                        some = [o for o, t in zip(some, texts) if not re.search(rb"\b(float|double)\b", t)]
                    some = some[k % 5 :: 5] if which == FEW else some[:40]
                em = emit(b, rep, wd, 0, derive, some)
                good = record_emission(rep, em, True)
                features(b, rep, [s["origin"] for s in good])
                texts = {s["origin"]: s["text"] for s in em}
                good.sort(key=lambda s: -len(s["text"]))
                groups = [good[i::CPUS] for i in range(min(CPUS, len(good)))]

                def one(i):
                    binary, ok, bad = compile_shard(b, wd, "shard%d" % i, groups[i], edition=edition)
                    return binary and ("shard%d" % i, binary, ok), ok, bad

                rs = pool(one, range(len(groups)))
                res = run_parts([x[0] for x in rs], lambda j, part: run_shard(rep, prop, tier, seed, j[1], j[2], wd, j[0], part=part))
                for (_, ok, bad), results in zip(rs, res):
                    for s in ok:
                        rep.count("modules_compiled")
                        rep.evals += 1
                        seen.add((s["text"], derive, edition))
                    for s, d in bad:
                        rep.evals += 1
                        rep.violation("the generated module or the accessor program of its documented API does not compile", origin=s["origin"], text=s["text"], detail=d[:3000], derive=derive, edition=edition, kind="compile")
                    for x in results:
                        collect(rep, b, x, texts)
                if len(rep.samples) < 2 and good:
                    s = good[-1]
                    rep.samples.append("compiles with %r, edition %s: %s" % (derive, edition, s["text"][:400]))
            finally:
                shutil.rmtree(wd, ignore_errors=True)
            log("compiled", len(good), "specifications with", repr(derive), edition)
        rounds += 1
    rep.distinct += len(seen)
    self_contained(rep, b, tier)
    # Recorded findings.
    wd = work("C07kf")
    try:

        def kf(job):
            k, i, t = job
            src = os.path.join(wd, "%s_%d" % (k, i))
            open(src + ".x", "w").write(t)
            rc, o, e = run([b.bin, "gen", src + ".x"], 60, 4 * GB)
            if rc != 0:
                return None
            open(src + "_m.rs", "wb").write(o)
            open(src + ".rs", "w").write('#![allow(warnings)]\n#[path = "%s_m.rs"] mod m;\n' % os.path.basename(src))
            p = b.rustc(src + ".rs", src + ".rmeta", edition="2018", extra=["--crate-type", "lib", "--emit", "metadata"], crate="kf")
            if p.returncode != 0:
                return (k, t)

        for r in pool(kf, [(k, i, t) for k, ts in KF7_TEXTS.items() for i, t in enumerate(ts)]):
            if r:
                rep.known[r[0]] = (rep.known.get(r[0], "") + "; " if r[0] in rep.known else "does not compile: ") + r[1]
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    rep.min_evals = 50
    return rep.finish()


def self_contained(rep, b, tier):
    """The documented use: `include!` in a crate whose only dependency is fastxdr
    (and thiserror, whose derive names its own crate)."""
    wd = work("C07self")
    try:
        em = emit(b, rep, wd, 0, "", ["c:repo_spec", "c:nfs", "c:scalars"])
        for s in em:
            if not s["ok"]:
                continue
            m = os.path.join(wd, "inc%d.rs" % s["id"])
            open(m, "w").write('#![allow(warnings)]\nmod outer { include!("s%d_gen.rs"); }\npub use outer::xdr::*;\n' % s["id"])
            cmd = ["rustc", "--edition", "2018", "--crate-type", "lib", "--emit", "metadata", "--error-format=json", "-o", m + "eta", m]
            for n in ("fastxdr", "thiserror"):
                cmd += ["--extern", "%s=%s" % (n, b.libs[n])]
            for d in b.deps:
                cmd += ["-L", "dependency=" + d]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), cwd=wd)
            rep.evals += 1
            rep.count("included_in_a_consumer")
            if p.returncode != 0:
                _, msg = blamed(p.stderr, [])
                rep.violation("the module does not compile when included in a crate with fastxdr only", origin=s["origin"], text=s["text"], detail=(msg or p.stderr)[:2000], kind="compile")
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# ------------------------------------------------------------------ C10


def c10(tier, seed):
    rep = Report("C10", tier, seed)
    rep.rule = "A case is one reader call on a view with r bytes remaining for one (payload length n, r, maximum), or one wire_size() of a standard container; distinct by (reader, n, r, maximum, bytes). The boolean reader runs on all 2^32 words in every tier."
    rep.assumptions = ["The reference arithmetic of RFC 4506 in harness/c10/main.rs is right.", "Element types of read_variable_array return Err on short input."]
    b = Built("xdrv")
    wd = work("C10")
    try:
        rc, o, e = run([b.bin, "gen", os.path.join(HARNESS, "c10", "api.x")], 60, 4 * GB)
        if rc != 0:
            raise Inconclusive("api.x is not generated: %s" % e.decode()[-500:])
        open(os.path.join(wd, "c10_gen.rs"), "wb").write(o)
        shutil.copy(os.path.join(HARNESS, "c10", "main.rs"), os.path.join(wd, "c10.rs"))
        p = b.rustc(os.path.join(wd, "c10.rs"), os.path.join(wd, "c10"), opt="2", crate="c10")
        if p.returncode != 0:
            _, msg = blamed(p.stderr, [])
            raise Inconclusive("the reader program does not compile: %s" % (msg or p.stderr)[:2000])
        log("compiled the reader program")
        out = os.path.join(wd, "c10.out")
        rc, o, e = run([os.path.join(wd, "c10"), "--seed", str(seed), "--tier", tier, "--out", out], 800 if tier == "quick" else 6000, 20 * GB)
        ls = lines(out)
        for l in ls:
            if l["kind"] == "violation":
                d = {k: v for k, v in l.items() if k != "kind"}
                rep.violation(d.pop("what"), **d)
            else:
                rep.add(l)
        if rc != 0 and not rep.violations:
            if isinstance(rc, int) and rc < 0:
                rep.violation("a reader " + status(rc), detail=e.decode(errors="replace")[-1500:], kind="crash")
            else:
                raise Inconclusive("reader program: %s %s" % (status(rc), e.decode(errors="replace")[-800:]))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    rep.extra["exhaustive"] = True
    rep.min_evals = 100_000
    return rep.finish()


# ------------------------------------------------------------------ C11


def c11(tier, seed):
    rep = Report("C11", tier, seed)
    rep.rule = "A case is one call of Generator::generate: repeated in fresh processes (fresh hash seeds), in another order, from several threads and on shared Generator values (byte equality), or on a relaid or permuted text of the same declarations (equality of the multiset of items, compared as Rust tokens). Distinct by text of relaid or permuted specifications."
    rep.assumptions = ["Items are compared token by token: white space inside the output is not part of an item.", "Comments are separated from tokens by white space, as the statement says."]
    b = Built("xdrv")
    wd = work("C11")
    try:
        rounds, budget = 0, float(os.environ.get("XV_BUDGET", "900"))
        while rounds == 0 or (tier == "thorough" and time.time() - T0 < budget and not rep.violations):
            n = 90 if tier == "quick" else 200
            first = 0 if rounds == 0 else 1000 * rounds
            jobs = []
            for c in range(CPUS):
                for k, mode in enumerate(["full", "hash", "rev"] + ["hash"] * (2 if tier == "quick" else 5)):
                    jobs.append((first + c * n, mode, os.path.join(wd, "%d-%d-%d" % (rounds, c, k))))

            def one(j):
                # Nothing about the process may matter: its environment, directory or name.
                k = int(j[2].rsplit("-", 1)[1])
                surroundings = [{}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8"}, {"TZ": "Asia/Tokyo", "RUST_BACKTRACE": "full", "HOME": "/nonexistent"}, {"CARGO_MANIFEST_DIR": "/tmp", "OUT_DIR": "/tmp", "PROFILE": "release"}, {"SOURCE_DATE_EPOCH": "0", "USER": "nobody", "RUST_LOG": "trace", "DEBUG": "1"}]
                cwd = [wd, "/", "/tmp", VERIF, wd][k % 5]
                return run([b.bin, "c11", str(seed), str(j[0]), str(n), j[1], j[2]], 800, 8 * GB, cwd=cwd, extra_env=surroundings[k % 5]), j

            hashes = {}
            for (rc, o, e), j in pool(one, jobs):
                rep.count("processes")
                if rc != 0:
                    raise Inconclusive("c11 worker: %s %s" % (status(rc), e.decode(errors="replace")[-500:]))
                for l in lines(j[2]):
                    if l["kind"] == "hash":
                        hashes.setdefault(l["i"], []).append((l["h"], j))
                        rep.count("outputs_hashed")
                        if j[1] != "full":
                            rep.evals += 1
                    elif l["kind"] == "violation":
                        rep.violation(l["what"], **{k: v for k, v in l.items() if k not in ("kind", "what")})
                    elif j[1] == "full":
                        rep.add({k: v for k, v in l.items() if k != "counts"})
                        for k in ("relaid", "permuted", "twins", "items"):
                            rep.count(k, l[k])
            for i, hs in sorted(hashes.items()):
                if len(set(h for h, _ in hs)) > 1:
                    rc, o, _ = run([b.bin, "c11text", str(seed), str(i)], 60, 4 * GB)
                    rep.violation("output differs between processes", i=i, text=o.decode(errors="replace"), detail=str([h for h, _ in hs]))
                rep.count("specifications")
            rounds += 1
        rep.extra["rounds"] = rounds
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    rep.min_evals = 500
    return rep.finish()


# ------------------------------------------------------------------ C12, C13


def xast(prop, tier, seed):
    rep = Report(prop, tier, seed)
    b = Built("xast")
    wd = work(prop)
    try:
        rounds, budget = 0, float(os.environ.get("XV_BUDGET", "900"))
        while rounds == 0 or (tier == "thorough" and time.time() - T0 < budget and not rep.violations):
            jobs = []
            for c in range(CPUS):
                out = os.path.join(wd, "%d-%d" % (rounds, c))
                if prop == "C12":
                    n = 2500 if tier == "quick" else 8000
                    jobs.append(([b.bin, "c12", str(seed), str((rounds * CPUS + c) * n), str(n), out], out))
                elif rounds == 0:
                    k, nr = (3, 400) if tier == "quick" else (4, 4000)
                    jobs.append(([b.bin, "c13", str(seed), str(k), str(c), str(CPUS), str(nr), out], out))
                else:
                    jobs.append(([b.bin, "c13", str(seed + 7919 * rounds), "0", str(c), str(CPUS), "20000", out], out))
            for (rc, o, e), j in zip(pool(lambda j: run(j[0], 800 if tier == "quick" else 7200, 8 * GB), jobs), jobs):
                for l in lines(j[1]):
                    if l["kind"] == "violation":
                        rep.violation(l["what"], **{k: v for k, v in l.items() if k not in ("kind", "what")})
                    else:
                        rep.add(l)
                if rc != 0:
                    if isinstance(rc, int) and rc < 0:
                        rep.violation("Ast::new " + status(rc), detail=e.decode(errors="replace")[-1000:] + " ".join(j[0]), kind="crash")
                    elif not rep.violations:
                        raise Inconclusive("worker: %s %s" % (status(rc), e.decode(errors="replace")[-800:]))
            rounds += 1
        rep.extra["rounds"] = rounds
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    if prop == "C12":
        rep.rule = "A case is one text pretty-printed from a declaration model with a random layout, spelling and declaration order; every fact of the model (name, member, field, arm, label, bound...) is compared with the public Ast, in both directions, and looked up by name. Distinct by text; all non-trivial."
        rep.assumptions = ["Declared names that are built-in type words (u32, uint32_t, bool, ...) are outside the subset (DESIGN.md)."]
    else:
        rep.rule = "A case is one dependency graph: all graphs of up to 3 declarations (4 in the thorough tier) over every kind, edge, opaque placement and order, then random graphs of up to 40 declarations; generics() is compared with reachability on the model and, for a sample, the emitted headers. Distinct by text."
        rep.assumptions = ["A typedef of its own name declares no type."]
    rep.min_evals = 1000
    return rep.finish()


# ------------------------------------------------------------------ C14


KF6 = "const N = 4000000000; struct s { unsigned int a[N]; };"


def c14(tier, seed):
    rep = Report("C14", tier, seed)
    rep.rule = "A case is one text given to Ast::new and Generator::generate on an 8 MB stack: supported specifications, grammar-valid nonsense, twisted supported texts, damaged characters, large texts, and texts the grammar rejects. Distinct by text."
    rep.assumptions = [
        "Texts called rejected are outside both the crate's pest grammar and the XDR grammar (a token missing, a foreign character, text after the last declaration).",
        "Fixed arrays of more than 5000 elements are skipped except for the recorded finding KF6.",
    ]
    b = Built("xdrv")
    wd = work("C14")
    try:
        rounds, budget = 0, float(os.environ.get("XV_BUDGET", "900"))
        while rounds == 0 or (tier == "thorough" and time.time() - T0 < budget and not rep.violations):
            n = 6000 if tier == "quick" else 20000

            def one(c):
                got, first, left = [], (rounds * CPUS + c) * n, n
                # A crash or hang is attributed to its case; the rest goes on.
                for attempt in range(4):
                    out, prog = os.path.join(wd, "o%d-%d" % (c, attempt)), os.path.join(wd, "p%d-%d" % (c, attempt))
                    rc, o, e = run([b.bin, "c14", str(seed), str(first), str(left), prog, out], 400 if tier == "quick" else 2400, 6 * GB)
                    got += lines(out)
                    if rc == 0:
                        return got
                    if rc == 79:
                        return got + [{"kind": "broken", "what": "monitor panic: " + e.decode(errors="replace")[-500:]}]
                    try:
                        i = int(open(prog).read())
                    except (ValueError, OSError):
                        return got + [{"kind": "broken", "what": status(rc) + e.decode(errors="replace")[-500:]}]
                    if rc == "timeout":
                        # A deadline is no verdict: the case again, alone and with all the time it may want.
                        rc, o, e = run([b.bin, "c14", str(seed), str(i), "1", prog, out], 240, 6 * GB)
                        if rc == 0:
                            # (Its own violations, if any, are in there.)
                            got += lines(out)
                            left -= i + 1 - first
                            first = i + 1
                            if left <= 0:
                                return got
                            continue
                    rc2, o2, _ = run([b.bin, "c14text", str(seed), str(i)], 60, 4 * GB)
                    got.append({"kind": "violation", "i": i, "what": "the generator " + ("does not terminate" if rc in ("timeout", 78) else status(rc)), "text": o2.decode(errors="replace")[:20000], "family": "crash", "detail": e.decode(errors="replace")[-800:]})
                    left -= i + 1 - first
                    first = i + 1
                    if left <= 0 or rc in ("timeout", 78):
                        return got
                return got

            for got in pool(one, range(CPUS)):
                for l in got:
                    if l["kind"] == "violation":
                        rep.violation(l["what"], **{k: v for k, v in l.items() if k not in ("kind", "what")})
                    elif l["kind"] == "broken":
                        rep.pending.append(l["what"])
                    else:
                        rep.add(l)
            rounds += 1
        rep.extra["rounds"] = rounds
        f = os.path.join(wd, "kf6.x")
        open(f, "w").write(KF6)
        rc, o, e = run([b.bin, "gen", f], 120, 3 * GB)
        if rc not in (0, 1):
            rep.known["KF6"] = "under a 3 GB limit the generator %s: %s" % (status(rc), KF6)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    rep.min_evals = 1000
    return rep.finish()


# ------------------------------------------------------------------ C15


def c15(tier, seed):
    import random

    rep = Report("C15", tier, seed)
    rep.rule = "A case is one run of the built CLI with an argument list of 0 to 5 paths (valid, rejected, missing, directory, unreadable, not UTF-8 contents, non-UTF-8 path, repeated); stdout, exit status and diagnostic are compared with the library. Distinct by argument contents; non-trivial with at least one argument."
    rep.assumptions = ["A diagnostic is any output that is not part of a generated module: stderr, or stdout for the usage text.", "After an error what was printed for earlier files is not constrained beyond being those files' output."]
    b = Built("xdrv")
    t = os.path.join(BUILD, "cli")
    with Lock():
        fresh(t)
        p = subprocess.run(
            ["cargo", "build", "--offline", "--bin", "fastxdr", "--manifest-path", REPO + "/Cargo.toml", "--target-dir", t, "--message-format=json"],
            cwd=VERIF, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
        )
        if p.returncode != 0:
            raise Inconclusive("the CLI does not build: " + p.stderr[-2000:])
        cli = None
        for l in p.stdout.splitlines():
            m = json.loads(l)
            if m.get("executable") and m["target"]["name"] == "fastxdr":
                cli = m["executable"]
    log("built the CLI")
    wd = work("C15")
    rnd = random.Random(seed)
    try:
        # Files: name -> (kind, expected output)
        n = 36 if tier == "quick" else 150
        origins = CLEAN + ["r:%s:%d:%d" % (["C01", "C06", "C08"][i % 3], seed, i) for i in range(n)]

        def text(o):
            rc, s, e = run([b.bin, "text", o], 60, 4 * GB)
            return s

        texts = pool(text, origins)
        texts += [b"", b"\n", b"// nothing\n", b"const A = 1;", b"const A = 1;\n\n\n", "/* é ∆ */ const B = 2;\r\n".encode()]
        # Large files, and files whose characters straddle every power-of-two boundary.
        for k in (5, 34):
            rc, s, e = run([b.bin, "c11text", str(seed), str(k)], 60, 4 * GB)
            texts.append(s)
        ok0 = b"const ONE = 1;\n"
        texts += [("/*" + "x" * k + "é€🦀" * 9000 + "*/ const C = 3;").encode() for k in range(4)]
        texts.append(b"const D = 4;" + b"\n" * 300000 + b"const E = 5;")
        # Long ones: output past every buffer, input past every limit one might set.
        many = b"".join(b"struct s%d { unsigned int a; string b<>; s%d *c; };\n" % (k, k) for k in range(900))
        texts += [many, b"/*" + b" many words\n" * 800_000 + b"*/\n" + ok0, ok0 + b"\n" * 18_000_000 + b"const Z = 9;"]
        # What the library makes of these is for it to say; the CLI must say the same.
        ok = b"const A = 1;\n"
        texts += [b"\xef\xbb\xbf" + ok, b"\xef\xbb\xbf", ok + b"\x00", b"\x00" + ok, ok + b"\x1a", ok + b"\x04", b"#!/bin/xdr\n" + ok, b"%#include <x.h>\n" + ok, b"#include <x.h>\n" + ok, b"# 1 \"x\"\n" + ok, b"\x0c" + ok, b"\x0b" + ok, "\u00a0".encode() + ok, "\u2028".encode() + ok, "\u200b".encode() + ok, ok + b"\r", b"\r" + ok, b"-" + ok, ok + b"EOF", ok.strip() + b";", ok.strip(b";\n")]
        files = {}
        broken = [many + b"struct t {", b"\n" * 700 + b"const A =;", b"\n" * 5_000_000 + b"}", many[: len(many) // 2], b"struct s { broken", b"const A = ;", b"foo", b"enum e { A = 0xzz };", b"struct s { int a; };\nunion", b"typedef int", b"\xef\xbb\xbf@", b"struct s { nowhere a[NOPE]; };", b"const A = 1; const A = 2;"]
        d = os.path.join(wd, "in")
        os.makedirs(os.path.join(d, "sub dir"))
        odd = ["-", "--", "-h", "--help", "-V", "--version", "@f", "*.x", "$HOME"]
        for i, s in enumerate(texts + broken):
            name = ["f%d.x", "sub dir/f %d.x", "é%d.x", "-x%d", "--f%d=1", "f%d"][i % 6] % i
            if i % 6 == 4 and odd:
                name = odd.pop()
            path = os.path.join(d, name)
            open(path, "wb").write(s)
            rc, o, e = run([b.bin, "gen", path], 60, 4 * GB)
            if rc == 0:
                files[name.encode()] = ("ok", o)
            elif rc == 1:
                files[name.encode()] = ("rejected", b"")
        files[b"caf\xe9.x"] = ("ok", files[b"f0.x"][1]) if b"f0.x" in files and files[b"f0.x"][0] == "ok" else None
        if files[b"caf\xe9.x"] is None:
            del files[b"caf\xe9.x"]
        else:
            shutil.copy(os.path.join(d, "f0.x").encode(), os.path.join(d.encode(), b"caf\xe9.x"))
        open(os.path.join(d, "latin1.x"), "wb").write(b"const A = 1; // \xe9\n")
        open(os.path.join(d, "utf16.x"), "wb").write("const A = 1;".encode("utf-16"))
        os.symlink("f0.x", os.path.join(d, "link.x"))
        if b"f0.x" in files:
            files[b"link.x"] = files[b"f0.x"]
        os.symlink("nowhere", os.path.join(d, "dangling.x"))
        os.symlink("loop.x", os.path.join(d, "loop.x"))
        for m in (b"loop.x", b"n" * 300 + b".x", b"/proc/self/mem", b"latin1.x", b"utf16.x", b"missing.x", b"sub dir", b"", b"no/such/dir/f.x", b"dangling.x", b"f0.x/", b"\xff\xfe"):
            files[m] = ("unreadable", b"")
        oks = sorted(k for k, v in files.items() if v[0] == "ok")
        bads = sorted(k for k, v in files.items() if v[0] != "ok")
        rep.count("files_valid", len(oks))
        rep.count("files_invalid", len(bads))
        if len(oks) < 20:
            raise Inconclusive("too few valid files")
        cases = [[]] + [[k] for k in oks + bads]
        for _ in range(150 if tier == "quick" else 4000):
            k = rnd.choice([2, 2, 3, 3, 3, 4, 5])
            cases.append([rnd.choice(oks) if rnd.random() < 0.85 else rnd.choice(bads) for _ in range(k)])
        for f in oks[:5]:
            cases.append([f, f, f])
        for x in bads:
            cases += [[x, oks[0]], [oks[1], x], [oks[0], x, oks[1]]]
        cases.append(oks[:40])
        cases.append((oks * 20)[:400])
        cases.append((oks * 20)[:300] + bads[:1])
        # With the surroundings of the run: how arguments are written, where stdout goes.
        cases = [(c, n % 3) for n, c in enumerate(cases)]
        cases += [(c, n) for n in (0, 2) for c in [[k] for k in oks if k[:1] == b"-"]]

        def one(job):
            # Each argument as given relative to the input directory, or absolute.
            c, how = job
            args = [a if (i + how) % 2 else (os.path.join(d.encode(), a) if a else a) for i, a in enumerate(c)]
            if how == 1:
                with tempfile.TemporaryFile(dir=wd) as f:
                    rc, _, e = run([cli.encode()] + args, 60, 4 * GB, cwd=d, stdout=f)
                    f.seek(0)
                    return c, args, rc, f.read(), e
            rc, o, e = run([cli.encode()] + args, 60, 4 * GB, cwd=d)
            return c, args, rc, o, e

        seen = set()
        for c, args, rc, o, e in pool(one, cases):
            rep.evals += 1
            if c:
                seen.add(tuple(c))
            bad = None
            kinds = [files[a][0] for a in c]
            outs = [files[a][1] for a in c]
            if not c:
                rep.count("no_arguments")
                if rc == 0 or not isinstance(rc, int) or rc < 0:
                    bad = "no arguments: " + status(rc)
                elif not o.strip() and not e.strip():
                    bad = "no arguments: no diagnostic"
                elif b"mod xdr" in o:
                    bad = "no arguments: a module is printed"
            elif all(k == "ok" for k in kinds):
                rep.count("all_valid_%d_arguments" % min(len(c), 6))
                if rc != 0:
                    bad = status(rc) + " on valid files; stderr " + e.decode(errors="replace")[:300]
                elif o != b"".join(outs):
                    n = next((i for i, (x, y) in enumerate(zip(o, b"".join(outs))) if x != y), min(len(o), len(b"".join(outs))))
                    bad = "stdout (%d bytes) is not what the library generates (%d bytes); first difference at %d: %r / %r" % (len(o), len(b"".join(outs)), n, o[n : n + 60], b"".join(outs)[n : n + 60])
            else:
                i = next(i for i, k in enumerate(kinds) if k != "ok")
                rep.count("first_bad_is_%s" % kinds[i])
                done = b"".join(outs[:i])
                if rc == 0 or not isinstance(rc, int) or rc < 0:
                    bad = status(rc) + " with an argument that is " + kinds[i]
                else:
                    # Output is a prefix of the valid files' output, or nothing.
                    every = [b"".join(outs[:j]) for j in range(i + 1)] + [b"".join(x for x, k in zip(outs, kinds) if k == "ok")]
                    rest = None
                    for w in sorted(set(every), key=len, reverse=True):
                        if o.startswith(w):
                            rest = o[len(w) :]
                            break
                    if b"pub mod xdr" in (rest or b""):
                        bad = "stdout holds something that is not the output of the valid files"
                    elif not e.strip() and not (rest or b"").strip():
                        bad = "no diagnostic with an argument that is " + kinds[i]
                    elif not o.startswith(done) and o.strip():
                        rep.count("output_withheld_on_error")
            if bad:
                rep.violation(bad, args=[a.decode(errors="backslashreplace") for a in args], kinds=kinds, stderr=e.decode(errors="replace")[:600])
            elif len(rep.samples) < 4 and rep.evals % 41 == 7:
                rep.samples.append("%s -> exit %s, %d bytes of stdout" % ([a.decode(errors="backslashreplace") for a in c], rc, len(o)))
        # Files that the user may not read.
        u = tempfile.mkdtemp(prefix="c15-")
        try:
            os.chmod(u, 0o755)
            shutil.copy(cli, os.path.join(u, "cli"))
            for name, mode in (("a.x", 0o644), ("secret.x", 0o600), ("b.x", 0o644)):
                open(os.path.join(u, name), "wb").write(b"const %s = 1;\n" % name[:1].upper().encode())
                os.chmod(os.path.join(u, name), mode)
            os.mkdir(os.path.join(u, "closed"), 0o700)
            shutil.copy(os.path.join(u, "a.x"), os.path.join(u, "closed", "c.x"))
            nobody = [sys.executable, "-c", "import os,sys; os.setgroups([]); os.setgid(65534); os.setuid(65534); os.execv(sys.argv[1], sys.argv[1:])", os.path.join(u, "cli")]
            for args, good in ((["a.x"], True), (["a.x", "b.x"], True), (["secret.x"], False), (["a.x", "secret.x"], False), (["secret.x", "a.x"], False), (["a.x", "secret.x", "b.x"], False), (["closed/c.x"], False), (["a.x", "closed/c.x"], False)):
                rc, o, e = run(nobody + args, 60, 4 * GB, cwd=u)
                if len(args) == 1 and good and rc != 0:
                    break  # no such user here
                rep.evals += 1
                rep.count("as_another_user")
                if good != (rc == 0):
                    rep.violation("%s for files of which %s may not be read" % (status(rc), "none" if good else "one"), args=args, stderr=e.decode(errors="replace")[:600])
                elif not good and not e.strip() and not o.strip():
                    rep.violation("no diagnostic for a file that may not be read", args=args)
        finally:
            shutil.rmtree(u, ignore_errors=True)
        # A named pipe is a file like any other.
        fifo = os.path.join(d, "pipe")
        os.mkfifo(fifo)
        for k in oks[:3]:
            def feed(k=k):
                # Opening waits for the reader.
                try:
                    with open(fifo, "wb") as w, open(os.path.join(d.encode(), k), "rb") as f:
                        w.write(f.read())
                except BrokenPipeError:
                    pass

            t = threading.Thread(target=feed, daemon=True)
            t.start()
            rc, o, e = run([cli.encode(), fifo.encode(), oks[0]], 120, 4 * GB, cwd=d)
            # Release the feeder if nobody read.
            os.close(os.open(fifo, os.O_RDONLY | os.O_NONBLOCK))
            t.join(10)
            rep.evals += 1
            rep.count("named_pipes")
            if rc != 0 or o != files[k][1] + files[oks[0]][1]:
                rep.violation("a named pipe holding a valid file: %s, %d bytes of stdout" % (status(rc), len(o)), args=["pipe", oks[0].decode()], stderr=e.decode(errors="replace")[:600])
        # Output that cannot be written must not pass for success.
        for k in oks[:6]:
            with open("/dev/full", "wb") as f:
                rc, _, e = run([cli.encode(), k], 60, 4 * GB, cwd=d, stdout=f)
            rep.evals += 1
            rep.count("full_device")
            if rc == 0 and files[k][1]:
                rep.violation("exit status 0 though standard output took nothing", args=[k.decode(errors="backslashreplace")])
        rep.distinct = len(seen)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    rep.min_evals = 150
    return rep.finish()


# ------------------------------------------------------------------ main


def replay(path):
    v = json.load(open(path))
    prop, seed = v["property"], v["seed"]
    print(json.dumps({k: x for k, x in v.items() if k != "text"}, indent=1, ensure_ascii=False)[:4000])
    print("specification:\n" + v.get("text", ""))
    if prop in SIZES and str(v.get("origin", "")).startswith(("r:", "c:", "g:")):
        rep = Report(prop, v["tier"], seed)
        rep.rule = "replay"
        rep.extra["replay"] = True
        shards(rep, prop, v["tier"], seed, 0, only=[v["origin"]])
        for x in rep.violations[:3]:
            print("reproduced:", json.dumps({k: str(y)[:800] for k, y in x.items() if k != "text"}, ensure_ascii=False))
        return 1 if rep.violations else 0
    return main(prop, v["tier"], seed)


def main(prop, tier, seed):
    if prop in SIZES:
        return decode_check(prop, tier, seed)
    if prop in ("C12", "C13"):
        return xast(prop, tier, seed)
    return {"C07": c07, "C10": c10, "C11": c11, "C14": c14, "C15": c15}[prop](tier, seed)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "setup":
            Built("xdrv")
            Built("xast")
            sys.exit(0)
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(main(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
    except Inconclusive as e:
        print("INCONCLUSIVE: %s" % e)
        # What was violated stays violated, whatever else could not be decided.
        sys.exit(Report.last.finish() if Report.last and Report.last.violations else 2)
