"""Builds the real code of /repo's working tree into /verif/build (content-hash object cache)."""
import hashlib, os, re, subprocess, sys, json, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
COMMON = ["-std=c++17", "-w", "-include", "boost/current_function.hpp",
          "-DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION",
          '-DPROJECT_SOURCE_DIR="%s"' % REPO]
# Full -fsanitize=undefined triples the compile time of the template-heavy files; these are its
# value-dependent checks, the pointer-dependent ones are left to AddressSanitizer.
UB = "signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bool,enum,bounds,return,unreachable"
SAN = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address," + UB,
       "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
PLAIN = ["-g1"]
# The analysis kernels are worth optimising; everything else compiles faster than it would run.
HOT = {"pdag", "preprocessor", "bdd", "zbdd", "mocus", "fault_tree_analysis", "probability_analysis", "importance_analysis"}


def opt(src):
    return "-O1" if os.path.basename(src).rsplit(".", 1)[0] in HOT else "-O0"
LIBS = ["-lxml2", "-lboost_program_options", "-lboost_filesystem", "-lboost_system",
        "-lboost_random", "-ldl"]


class BuildError(Exception):
    pass


def read(p):
    with open(p, "rb") as f:
        return f.read()


def core_sources():
    txt = read(os.path.join(REPO, "src/CMakeLists.txt")).decode()
    m = re.search(r"set\(SCRAM_CORE_SRC(.*?)\)", txt, re.S)
    srcs = [s for s in m.group(1).split() if s.endswith(".cc")]
    return srcs


def header_hash(subdirs):
    h = hashlib.sha256()
    for sub in subdirs:
        top = os.path.join(REPO, sub)
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inc", ".in", ".ipp", ".tcc")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    h.update(read(p))
    h.update(read(os.path.join(REPO, "CMakeLists.txt")))
    return h.hexdigest()


def gen_version(dst):
    txt = read(os.path.join(REPO, "CMakeLists.txt")).decode()
    vals = {}
    m = re.search(r"project\(SCRAM\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", txt)
    for i, part in enumerate(("MAJOR", "MINOR", "PATCH")):
        vals["SCRAM_VERSION_" + part] = m.group(i + 1) if m else "0"
    vals["SCRAM_VERSION"] = "%s.%s.%s" % (vals["SCRAM_VERSION_MAJOR"], vals["SCRAM_VERSION_MINOR"], vals["SCRAM_VERSION_PATCH"])
    vals["SCRAM_GIT_REVISION"] = ""
    out = read(os.path.join(REPO, "src/version.h.in")).decode()
    out = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), ""), out)
    os.makedirs(dst, exist_ok=True)
    p = os.path.join(dst, "version.h")
    if not os.path.exists(p) or read(p).decode() != out:
        with open(p, "w") as f:
            f.write(out)
    return vals["SCRAM_VERSION"]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("build command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout


class Variant:
    def __init__(self, name, flags):
        self.name, self.flags = name, flags
        self.dir = os.path.join(BUILD, name)
        self.obj = os.path.join(self.dir, "obj")
        self.gen = os.path.join(BUILD, "gen")
        os.makedirs(self.obj, exist_ok=True)
        os.makedirs(os.path.join(self.dir, "bin"), exist_ok=True)
        self.jobs = []
        self.used = set()

    def compile(self, src, extra=(), hh="", incs=()):
        """Schedules a compilation; returns the object path."""
        key = hashlib.sha256(b"\0".join([read(src), hh.encode(), " ".join(self.flags).encode(),
                                         " ".join(extra).encode(), " ".join(incs).encode(), src.encode(), opt(src).encode()])).hexdigest()[:24]
        out = os.path.join(self.obj, os.path.basename(src).replace(".", "_") + "_" + key + ".o")
        self.used.add(out)
        if not os.path.exists(out):
            cmd = [CXX] + COMMON + [opt(src)] + self.flags + ["-I" + self.gen, "-I" + REPO + "/src", "-I" + REPO,
                   "-isystem", "/usr/include/libxml2"] + list(incs) + list(extra) + ["-c", src, "-o", out + ".tmp%d" % os.getpid()]
            self.jobs.append((os.path.getsize(src), cmd, out))
        return out

    def flush(self):
        def one(job):
            _, cmd, out = job
            run(cmd)
            os.replace(cmd[-1], out)
        # Longest first keeps the critical path short.
        heavy = {"initializer": 9, "scram": 5, "model": 4, "reporter": 4, "event_tree_analysis": 3, "risk_analysis": 3}
        def weight(j):
            b = os.path.basename(j[1][-3]).split(".")[0]
            return -(heavy.get(b, 0) * 100000 + j[0])
        jobs = sorted(self.jobs, key=weight)
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(one, jobs))
        n = len(jobs)
        self.jobs = []
        return n

    def prune(self):
        for f in os.listdir(self.obj):
            p = os.path.join(self.obj, f)
            if p not in self.used and f.endswith(".o"):
                try:
                    os.unlink(p)
                except OSError:
                    pass


def link(cmd_objs, out, flags, libs):
    stamp = out + ".link"
    key = hashlib.sha256(" ".join(cmd_objs + flags + libs).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and read(stamp).decode() == key:
        return False
    run([CXX] + flags + ["-fuse-ld=lld", "-o", out + ".tmp"] + cmd_objs + libs)
    os.replace(out + ".tmp", out)
    with open(stamp, "w") as f:
        f.write(key)
    return True


def install_share(dst):
    share = os.path.join(dst, "share", "scram")
    os.makedirs(share, exist_ok=True)
    for f in sorted(os.listdir(os.path.join(REPO, "share"))):
        if f.endswith(".rng"):
            data = read(os.path.join(REPO, "share", f))
            p = os.path.join(share, f)
            if not os.path.exists(p) or read(p) != data:
                with open(p, "wb") as o:
                    o.write(data)


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_core(variant="asan"):
    """Driver and CLI binaries; returns their paths."""
    lk = lock()
    v = Variant(variant, SAN if variant == "asan" else PLAIN)
    gen_version(v.gen)
    hh = header_hash(["src"])
    objs = [v.compile(os.path.join(REPO, "src", s), hh=hh) for s in core_sources()]
    cli = v.compile(os.path.join(REPO, "src", "scram.cc"), hh=hh)
    drv = v.compile(os.path.join(VERIF, "harness", "driver.cc"), hh=hh)
    prb = v.compile(os.path.join(VERIF, "harness", "probe.cc"), hh=hh)
    n = v.flush()
    cli2 = cli[:-2] + "_lib.o"   # main() callable from the driver; parser cleanup is left to the process end
    v.used.add(cli2)
    if not os.path.exists(cli2):
        run(["objcopy", "--redefine-sym", "main=scram_cli_main", "--redefine-sym", "xmlCleanupParser=driver_xml_cleanup", cli, cli2])
    b = os.path.join(v.dir, "bin")
    link(objs + [cli2, drv, prb], os.path.join(b, "driver"), v.flags + ["-rdynamic"], LIBS)
    link(objs + [cli], os.path.join(b, "scram"), v.flags, LIBS)
    install_share(v.dir)
    v.prune()
    lk.close()
    return {"driver": os.path.join(b, "driver"), "scram": os.path.join(b, "scram"), "compiled": n, "dir": v.dir}


if __name__ == "__main__":
    import time
    t = time.time()
    for name in sys.argv[1:] or ["asan"]:
        if name == "gui":
            import build_gui
            print(build_gui.build_gui())
        else:
            print(build_core(name))
    print("%.1fs" % (time.time() - t))
