"""Builds the Python modules of the working tree (and the native oracle) for C17."""
import os, re, glob, shutil, hashlib, subprocess
from concurrent.futures import ThreadPoolExecutor

VTK_LIBS = ["-lvtkIOLegacy-9.1", "-lvtkIOCore-9.1", "-lvtkCommonExecutionModel-9.1", "-lvtkCommonDataModel-9.1", "-lvtkCommonTransforms-9.1",
            "-lvtkCommonMath-9.1", "-lvtkCommonCore-9.1", "-lvtksys-9.1", "-ldl", "-ltbb"]


def _write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p, encoding="utf-8").read() != t:
        open(p, "w", encoding="utf-8").write(t)


def _headers(repo, dst):
    def conf(src, out):
        t = open(src, encoding="utf-8").read()
        t = re.sub(r"^(\s*#\s*)cmakedefine\s+CARIBOU_WITH_VTK.*$", "#define CARIBOU_WITH_VTK", t, flags=re.M)
        t = re.sub(r"^(\s*#\s*)cmakedefine\s+(\w+).*$", r"/* #undef \2 */", t, flags=re.M)
        t = re.sub(r"@\w+@|\$\{\w+\}", "0", t)
        _write(out, t)
    base = os.path.join(repo, "src/Caribou")
    for f in sorted(glob.glob(base + "/Config/*.h.in")):
        conf(f, os.path.join(dst, "Caribou", os.path.basename(f)[:-3]))
    for f in sorted(glob.glob(base + "/Topology/*.h.in")):
        conf(f, os.path.join(dst, "Caribou/Topology", os.path.basename(f)[:-3]))
    for f in sorted(glob.glob(base + "/Python/Config/*.h.in")):
        conf(f, os.path.join(dst, "Caribou/Python", os.path.basename(f)[:-3]))


def _hash(repo, here):
    h = hashlib.sha256()
    for root in (repo + "/src", here + "/harness", here + "/lib"):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".pyc"):
                    continue
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def prepare(ctx, BuildError):
    repo, here, build = ctx["repo"], ctx["here"], ctx["build"]
    top = os.path.join(build, "py")
    stamp = os.path.join(top, "stamp")
    key = _hash(repo, here)
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    shutil.rmtree(top, ignore_errors=True)
    inc = os.path.join(top, "include")
    _headers(repo, inc)
    err = None
    for cxx in ("clang++", "g++"):   # clang is the faster compiler here; every module must come from the same one
        try:
            _build(cxx, repo, here, top, inc, BuildError)
            err = None
            break
        except BuildError as e:
            err = e
    if err is not None:
        raise err
    open(stamp, "w").write(key)


def _run(cmd, BuildError):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def _build(cxx, repo, here, top, inc, BuildError):
    obj = os.path.join(top, "obj-" + cxx)
    os.makedirs(obj, exist_ok=True)
    flags = ["-std=c++17", "-O0", "-g0", "-DNDEBUG", "-w", "-fPIC", "-fvisibility=hidden", "-ftrivial-auto-var-init=pattern", "-I" + inc, "-I" + repo + "/src", "-I/usr/include/eigen3", "-I/usr/include/vtk-9.1"]
    pyinc = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.strip()
    flags.append("-I" + pyinc)
    mods = {"Config": ("Caribou", ""), "Geometry": ("Geometry", "Geometry"), "Topology": ("Topology", "Topology")}
    jobs, links = [], []
    native = os.path.join(top, "c17_native")
    jobs.append([cxx] + [f for f in flags if f not in ("-fPIC", "-fvisibility=hidden")] + [here + "/harness/c17_native.cpp", "-o", native])
    vtk = os.path.join(obj, "VTKReader.o")
    for m, (name, sub) in mods.items():
        objs = []
        for src in sorted(glob.glob(repo + "/src/Caribou/Python/" + m + "/**/*.cpp", recursive=True)):
            o = os.path.join(obj, m + "-" + os.path.basename(src)[:-4] + ".o")
            jobs.append([cxx] + flags + ["-c", src, "-o", o])
            objs.append(o)
        out = os.path.join(top, "site", "Caribou", sub)
        os.makedirs(out, exist_ok=True)
        for p in glob.glob(repo + "/src/Caribou/Python/" + m + "/*.py"):
            shutil.copy(p, out)
        if m == "Topology":
            objs.append(vtk)
        links.append([cxx, "-shared", "-fuse-ld=lld"] + objs + (VTK_LIBS if m == "Topology" else []) + ["-o", os.path.join(out, name + ".so")])
    jobs.append([cxx] + flags + ["-c", repo + "/src/Caribou/Topology/IO/VTKReader.cpp", "-o", vtk])
    jobs.sort(key=lambda c: -("Domain.cpp" in " ".join(c)) * 2 - ("native" in " ".join(c)))
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(_run, c, BuildError) for c in jobs]:
            f.result()
        for c in links:
            try:
                _run(c, BuildError)
            except BuildError:
                _run([x for x in c if x != "-fuse-ld=lld"], BuildError)
