"""Compile the repository's sources into a scratch directory (never into /repo)."""
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(VERIF, "harness")
PY = "/opt/vp/venv/bin/python"
CXX = "/usr/bin/g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
       "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]


class BuildError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "CCACHE", "LD_", "ASAN", "UBSAN"))}
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
    return e


def run(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), timeout=timeout)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-3000:])
    return p.stdout.decode()


def cpps(top):
    out = []
    for r, _, fs in os.walk(top):
        out += [os.path.join(r, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def compile_all(items, objdir, jobs=8):
    os.makedirs(objdir, exist_ok=True)

    def one(x):
        f, flags = x
        o = os.path.join(objdir, f.strip("/").replace("/", "_") + ".o")
        run([CXX] + flags + ["-w", "-c", f, "-o", o])
        return o
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, items))


def extension(repo, out):
    """A package directory out/cliquematch with the extension built with sanitizers."""
    src = os.path.join(repo, "src", "cliquematch")
    inc = run([PY, "-c", "import sysconfig,pybind11;print(sysconfig.get_path('include'));print(pybind11.get_include());"
                         "print(sysconfig.get_config_var('EXT_SUFFIX'))"]).split()
    flags = ["-std=c++11", "-fPIC", "-fvisibility=hidden", "-I" + src, "-I/usr/include/eigen3",
             "-I" + inc[0], "-I" + inc[1], "-include", os.path.join(H, "vclock.h"), "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
    # the binding code is mostly templates: compiled without optimisation and undefined-behaviour checks, to save time
    big = sorted(cpps(src + "/core") + cpps(src + "/ext"), key=lambda f: -sum(h in open(f).read() for h in (".def", "Eigen", "template")))
    jobs = [(f, flags + ["-O0", "-fsanitize=address"]) for f in big]
    jobs += [(f, flags + ["-O1", "-g1"] + SAN) for f in cpps(src + "/detail") + [H + "/vclock.cpp"]]
    objs = compile_all(jobs, os.path.join(out, "obj"))
    pkg = os.path.join(out, "cliquematch")
    for r, ds, fs in os.walk(src):
        for f in fs:
            if f.endswith(".py"):
                d = os.path.join(pkg, os.path.relpath(r, src))
                os.makedirs(d, exist_ok=True)
                shutil.copy(os.path.join(r, f), d)
    run([CXX, "-shared", "-fsanitize=address,undefined"] + objs + ["-o", os.path.join(pkg, "core" + inc[2])])
    shutil.rmtree(os.path.join(out, "obj"))
    return out


def harness(repo, source, out):
    src = os.path.join(repo, "src", "cliquematch")
    flags = ["-std=c++11", "-O1", "-g1", "-I" + src] + SAN
    objs = compile_all([(f, flags) for f in [os.path.join(H, source)] + cpps(src + "/detail")], out + ".obj")
    run([CXX, "-fsanitize=address,undefined"] + objs + ["-o", out])
    shutil.rmtree(out + ".obj")
    return out


def san_env():
    e = env()
    e["LD_PRELOAD"] = run([CXX, "-print-file-name=libasan.so"]).strip() + ":" + run([CXX, "-print-file-name=libubsan.so"]).strip() \
        + ":" + run([CXX, "-print-file-name=libstdc++.so"]).strip()
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
    return e
