"""Content-hash driven build of the simulator executable from /repo's working tree.

cmake is only asked for the compile commands (in /verif/build/cmake); every object is
compiled by this driver straight from /repo and cached under the hash of the command and
of every file the compiler read, so modification times play no part.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shlex
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CM = os.path.join(BUILD, "cmake")
OBJ = os.path.join(BUILD, "obj")
EXE = os.path.join(BUILD, "psisim")
SIM = os.path.join(VERIF, "sim")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

CXXREL = "-g0 -w -include iostream -include algorithm -DBOOST_TIMER_ENABLE_DEPRECATED"
# code whose basic blocks are scheduling points
INSTR = ("server/", "common/", "framework/")
INSTR_FLAGS = ["-fsanitize-coverage=trace-pc"]
# what uninitialised locals hold is part of the build, not of the run
INIT = "-ftrivial-auto-var-init="
EXTRA = ["-g0", "-w", "-fno-lifetime-dse", "-B" + os.path.join(SIM, "asw") + "/", INIT + "pattern"]
# the same program in which they hold zeros; a program whose answers differ between the two reads them
ZERO = os.path.join(BUILD, "psisim-zero")


class BuildError(Exception):
    pass


_hash_memo = {}


def fhash(path):
    h = _hash_memo.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_memo[path] = h
    return h


def run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def cmake_inputs():
    h = hashlib.sha1()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in ("build", ".git")]
        dirs.sort()
        for f in sorted(files):
            if f == "CMakeLists.txt" or f.endswith((".cmake", ".in")):
                p = os.path.join(root, f)
                h.update((os.path.relpath(p, REPO) + fhash(p)).encode())
            elif f.endswith((".cpp", ".c", ".cc", ".C")):
                # globs in CMakeLists.txt see file names
                h.update(os.path.relpath(os.path.join(root, f), REPO).encode())
    h.update(REPO.encode())
    for p in ("/opt/vp/fixups.cmake",):
        h.update(fhash(p).encode())
    h.update(CXXREL.encode())
    return h.hexdigest()


def configure():
    key = cmake_inputs()
    stamp = os.path.join(CM, ".psikey")
    cc = os.path.join(CM, "compile_commands.json")
    if os.path.exists(cc) and os.path.exists(stamp) and open(stamp).read() == key \
            and os.path.exists(os.path.join(REPO, "common/config.hpp")):
        return False
    os.makedirs(CM, exist_ok=True)
    env = dict(os.environ, JAVA_HOME="/usr/lib/jvm/java-17-openjdk-amd64",
               LC_ALL="C.UTF-8", LANG="C.UTF-8")
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS"):
        env.pop(k, None)
    # configure_file() leaves config.hpp alone when its text does not change
    rc, out = run(["cmake", "-S", REPO, "-B", CM, "-G", "Unix Makefiles",
                   "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
                   "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                   "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_C_COMPILER=gcc",
                   "-DCMAKE_CXX_STANDARD=14",
                   "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + CXXREL,
                   "-DCMAKE_PROJECT_psi-toolkit_INCLUDE=/opt/vp/fixups.cmake",
                   "-DDOWNLOAD_DATA=OFF", "-DUSE_DJVU_READER=ON",
                   "-DUSE_DOC_READER=ON", "-DUSE_JAVA=ON", "-DUSE_LINK_GRAMMAR=OFF",
                   "-DUSE_SFST=OFF", "-Wno-dev", "-Wno-deprecated"], env=env)
    if rc:
        raise BuildError("cmake failed:\n" + out[-3000:])
    with open(stamp, "w") as f:
        f.write(key)
    return True


def wanted(src, target, base):
    rel = os.path.relpath(src, base)
    if "/t/" in rel or "/t/" in target:
        return False
    if "/utils/binaries" in target or "trunner" in target or "bigram-generator" in target:
        return False
    if rel.startswith(("bindings/python", "bindings/ruby", "bindings/perl/PSIToolkit")):
        return False
    if "/bindings/python" in target or "/bindings/ruby" in target or "/PSIToolkit" in target:
        return False
    if target.startswith("tests ") and "test-extractor" not in target:
        return False
    if "-plugin.dir" in target:
        return False
    return True


PLUG = os.path.join(BUILD, "plugins")
PLUGZ = os.path.join(BUILD, "plugins-zero")


def plugins():
    """The shared objects psi-toolkit loads by name at run time: (name, compile jobs, libraries)."""
    db = json.load(open(os.path.join(CM, "compile_commands.json")))
    out = {}
    for x in db:
        a = shlex.split(x["command"])
        o = a[a.index("-o") + 1]
        if "-plugin.dir" not in o:
            continue
        rel = os.path.relpath(x["file"], REPO)
        i = a.index("-o")
        del a[i:i + 2]
        i = a.index("-c")
        del a[i:i + 2]
        link = os.path.join(x["directory"], os.path.dirname(os.path.dirname(o)) or "CMakeFiles", o.split("/")[1], "link.txt")
        words = shlex.split(open(link).read())
        name = words[words.index("-o") + 1]
        libs = [w for w in words if w.startswith("-l") or w.startswith("/usr/lib") and ".so" in w and not w.startswith("-")]
        out.setdefault(name, ([], libs))[0].append((x["file"], rel, a + EXTRA, x["directory"]))
    return out


def link_plugin(name, objs, libs, where=None):
    h = hashlib.sha1()
    for o in sorted(objs):
        h.update((o + fhash(o)).encode())
    so = os.path.join(where or PLUG, name)
    if os.path.exists(so) and os.path.exists(so + ".key") and open(so + ".key").read() == h.hexdigest():
        return
    rc, out = run(["g++", "-fPIC", "-shared", "-Wl,-soname," + name, "-o", so + ".tmp"] + objs + libs, cwd=BUILD)
    if rc:
        raise BuildError("link of " + name + " failed:\n" + out[-2000:])
    os.replace(so + ".tmp", so)
    with open(so + ".key", "w") as f:
        f.write(h.hexdigest())


GVDIR = "/usr/lib/x86_64-linux-gnu/graphviz"
GVBIN = os.path.join(PLUG, "gv")


def graphviz_dir():
    """A graphviz configuration with only the core and dot plug-ins: the others bring in
    pango and its threads, which wait in system calls no simulator sees."""
    src = os.path.join(GVDIR, "config6a")
    if not os.path.exists(src):
        return
    os.makedirs(GVBIN, exist_ok=True)
    keep, on = "", False
    for l in open(src):
        if ".so" in l and not l.startswith("\t"):
            on = any(n in l for n in ("gvplugin_core", "gvplugin_dot_layout"))
            if on:
                n = l.split()[0]
                if not os.path.lexists(os.path.join(GVBIN, n)):
                    os.symlink(os.path.join(GVDIR, n), os.path.join(GVBIN, n))
        if on:
            keep += l
    with open(os.path.join(GVBIN, "config6a"), "w") as f:
        f.write(keep)


# files that define main(); renamed so that the simulator can call them
MAINS = {"server/psi-server.cpp": "psi_server_main", "framework/psi-pipe.cpp": "psi_pipe_main"}


def sources():
    db = json.load(open(os.path.join(CM, "compile_commands.json")))
    seen, jobs = set(), []
    for x in db:
        a = shlex.split(x["command"])
        o = a[a.index("-o") + 1]
        target = os.path.relpath(x["directory"], CM) + " " + o.split("/")[1]
        src = x["file"]
        base = CM if src.startswith(CM + "/") else REPO
        if not wanted(src, target, base) or src in seen:
            continue
        seen.add(src)
        rel = os.path.relpath(src, base)
        i = a.index("-o")
        del a[i:i + 2]
        i = a.index("-c")
        del a[i:i + 2]
        a += EXTRA
        if base == REPO and rel.startswith(INSTR):
            a += INSTR_FLAGS
        if rel in MAINS:
            a.append("-Dmain=" + MAINS[rel])
        jobs.append((src, rel, a, x["directory"]))
    return jobs


def generated(jobs):
    """flex and bison outputs some sources need."""
    todo = []
    for src, rel, a, d in jobs:
        if src.startswith(CM + "/") and not os.path.exists(src):
            todo.append(src)
    rc, out = run(["make", "-C", CM, "flex-grlex", "bison-grparser"])
    if rc:
        raise BuildError("generated sources:\n" + out[-2000:])
    # the transferer's parser lives in the binary directory: always bring it up to date
    for src, rel, a, d in jobs:
        if src.startswith(CM + "/"):
            mk = [m for m in find_build_make(d) if (rel + ":") in open(m).read()]
            for m in mk:
                rc, out = run(["make", "-C", CM, "-f", os.path.relpath(m, CM), rel])
                if rc:
                    raise BuildError("generated sources:\n" + out[-2000:])


def find_build_make(d):
    out = []
    for t in sorted(os.listdir(os.path.join(d, "CMakeFiles"))):
        p = os.path.join(d, "CMakeFiles", t, "build.make")
        if os.path.exists(p):
            out.append(p)
    return out


def parse_deps(path):
    try:
        t = open(path).read()
    except OSError:
        return []
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1] if ":" in t else t
    return [x for x in t.split() if x]


_compiler_id = None


def compiler_id():
    global _compiler_id
    if _compiler_id is None:
        _compiler_id = run(["g++", "--version"])[1].splitlines()[0]
    return _compiler_id


def obj_for(src, rel, args, cwd):
    """Returns (object path, needs compile, key-file path)."""
    name = re.sub(r"[^A-Za-z0-9_.]", "_", rel)
    cmdkey = hashlib.sha1((" ".join(args) + compiler_id()).encode()).hexdigest()[:10]
    base = os.path.join(OBJ, f"{name}-{cmdkey}")
    rec = base + ".json"
    try:
        d = json.load(open(rec))
        if os.path.exists(base + ".o") and d["deps"] \
                and all(fhash(p) == h for p, h in d["deps"].items()):
            return base, False
    except (OSError, ValueError, KeyError):
        pass
    return base, True


def compile_one(job):
    src, rel, args, cwd = job
    base, need = obj_for(src, rel, args, cwd)
    if not need:
        return base + ".o", None, False
    tmp = f"{base}.{os.getpid()}"
    cmd = args + ["-MMD", "-MF", tmp + ".d", "-o", tmp + ".o", "-c", src]
    rc, out = run(cmd, cwd=cwd)
    if rc:
        return None, f"{rel}:\n{out[-1500:]}", True
    deps = {os.path.normpath(os.path.join(cwd, p)): None for p in parse_deps(tmp + ".d")}
    deps = {p: fhash(p) for p in deps}
    os.replace(tmp + ".o", base + ".o")
    os.unlink(tmp + ".d")
    with open(base + ".json.tmp", "w") as f:
        json.dump({"deps": deps}, f)
    os.replace(base + ".json.tmp", base + ".json")
    return base + ".o", None, True


def link_libs():
    """External libraries, from the link lines cmake made for the two programs."""
    libs = []
    for p in ("server/CMakeFiles/psi-server.dir/link.txt",
              "framework/CMakeFiles/psi-pipe.dir/link.txt"):
        for w in open(os.path.join(CM, p)).read().split():
            if w.startswith("-l") and w not in libs:
                libs.append(w)
            elif w.startswith("/") and (".so" in w) and not w.startswith(("/repo", CM)) \
                    and w not in libs:
                libs.append(w)
    rp = sorted({os.path.dirname(x) for x in libs if x.startswith("/usr/lib/jvm")})
    return libs + ["-Wl,-rpath," + d for d in rp]


def sim_jobs():
    jobs = []
    inc = ["-I" + REPO + "/" + d for d in (".", "common", "server", "framework", "tools",
                                           "tools/datastructures/lexica", "utf8", "formats",
                                           "common/plugins", "utf8case")]
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".cpp"):
            flags = ["g++", "-std=gnu++17" if not f.startswith("drv_") else "-std=gnu++14",
                     "-O1", "-g1", "-Wall", "-Wno-unused", "-I" + SIM] + \
                    ([] if not f.startswith("drv_") else
                     inc + java_inc() + ["-w", "-fno-access-control", "-include", "iostream", "-include",
                            "algorithm", "-DBOOST_TIMER_ENABLE_DEPRECATED"])
            jobs.append((os.path.join(SIM, f), "sim_" + f, flags, SIM))
    return jobs


def java_inc():
    """Include directories of the repository's own framework target."""
    db = json.load(open(os.path.join(CM, "compile_commands.json")))
    for x in db:
        if x["file"].endswith("framework/pipe_runner.cpp"):
            return [w for w in shlex.split(x["command"]) if w.startswith("-I")]
    return []


def build(verbose=False, zero=False):
    """Brings build/psisim (or its twin with zeroed locals) up to date. Returns a dict with what was done."""
    t0 = time.time()
    exe, where = (ZERO, PLUGZ) if zero else (EXE, PLUG)
    os.makedirs(OBJ, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _hash_memo.clear()
        conf = configure()
        jobs = sources()
        generated(jobs)
        _hash_memo.clear()
        plug = plugins()
        os.makedirs(where, exist_ok=True)
        graphviz_dir()
        for name, (pj, libs) in sorted(plug.items()):
            jobs += pj
        if zero:
            for job in jobs:
                job[2][:] = [INIT + "zero" if w == INIT + "pattern" else w for w in job[2]]
        jobs = sim_jobs() + jobs
        objs, errs, n, made = [], [], 0, {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for job, (o, e, did) in zip(jobs, ex.map(compile_one, jobs)):
                n += did
                if e:
                    errs.append(e)
                else:
                    made[job[0]] = o
        if errs:
            raise BuildError("compile errors:\n" + "\n".join(errs[:4]))
        for name, (pj, libs) in sorted(plug.items()):
            link_plugin(name, [made.pop(j[0]) for j in pj], libs, where)
        objs = list(made.values())
        h = hashlib.sha1()
        for o in sorted(objs):
            h.update((o + fhash(o)).encode())
        key = h.hexdigest()
        stamp = exe + ".key"
        linked = False
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
            rsp = exe + ".rsp"
            with open(rsp, "w") as f:
                f.write("\n".join(objs))
            cmd = ["g++", "-rdynamic", "-Wl,--allow-multiple-definition", "-no-pie", "-o", exe + ".tmp",
                   "@" + rsp] + link_libs() + ["-lpthread", "-ldl"]
            rc, out = run(cmd, cwd=BUILD)
            if rc:
                raise BuildError("link failed:\n" + out[-3000:])
            os.replace(exe + ".tmp", exe)
            with open(stamp, "w") as f:
                f.write(key)
            linked = True
    info = {"configured": conf, "sources": len(jobs), "compiled": n, "linked": linked,
            "exe_key": key, "build_s": round(time.time() - t0, 1)}
    if verbose:
        print("build:", info, flush=True)
    return info


if __name__ == "__main__":
    try:
        build(True)
        build(True, zero=True)
    except BuildError as e:
        print("BUILD ERROR", e)
        sys.exit(2)
