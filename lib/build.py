"""Builds a harness from /verif/harness/NAME/*.cpp and the sources of /repo it needs (working tree), with ninja."""
import glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(REPO, "score")
EXCLUDE = re.compile(r"(^|/)(test|tests|mock|mocks|qnx|examples?|benchmarks?|performance_benchmarks|example|design|doc|docs|fuzz)(/|$)|(_test|_mock|_qnx|_benchmark|mock_[a-z_]*|fake_[a-z_]*)\.cpp$|/main\.cpp$")


class BuildError(Exception):
    pass


def ninja_file(name, stems, whole):
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    common = os.path.join(VERIF, "harness", "common")
    inc = f"-I{VERIF}/harness/vsched -I{common} -I{VERIF}/harness/{name} -I{VERIF}/shim -I{REPO}"
    out = [
        "ninja_required_version = 1.5",
        f"cxxflags = -std=c++17 -O0 -g1 -w -pipe -fno-strict-aliasing {inc}",
        "rule pch\n  command = g++ $cxxflags -x c++-header -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc",
        f"rule cc\n  command = g++ -Ipch $cxxflags -include prelude.h -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc",
        "rule ccplain\n  command = g++ $cxxflags -O1 -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc",
        "rule cp\n  command = cp $in $out",
        "rule link\n  command = g++ -o $out -Wl,--start-group @$out.rsp -Wl,--end-group -lpthread -lrt -ldl\n  rspfile = $out.rsp\n  rspfile_content = $in",
        f"rule ar\n  command = rm -f {d}/librepo.a && ar rcs $out @$out.rsp\n  rspfile = $out.rsp\n  rspfile_content = $in",
        f"build pch/prelude.h: cp {VERIF}/harness/vsched/prelude.h",
        "build pch/prelude.h.gch: pch pch/prelude.h",
    ]
    extra = ""
    ff = os.path.join(VERIF, "harness", name, "flags.txt")   # additional flags for the repository's sources
    if os.path.exists(ff):
        extra = open(ff).read().strip().replace("$VERIF", VERIF).replace("$REPO", REPO)
    out.append(f"rule ccr\n  command = g++ -Ipch $cxxflags {extra} -include prelude.h -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc")
    objs = []
    for f in sorted(glob.glob(f"{VERIF}/harness/{name}/*.cpp")) + [f"{common}/stubs.cpp"]:
        o = "h_" + os.path.basename(f)[:-4] + ".o"
        out.append(f"build {o}: cc {f} | pch/prelude.h.gch")
        objs.append(o)
    for f in [f"{VERIF}/harness/vsched/vsched.cpp", f"{common}/trace.cpp"]:
        o = "p_" + os.path.basename(f)[:-4] + ".o"
        out.append(f"build {o}: ccplain {f}")
        objs.append(o)
    robjs = []
    for s in stems:
        o = "r_" + s.replace("/", "_") + ".o"
        out.append(f"build {o}: ccr {SRC}/{s}.cpp | pch/prelude.h.gch")
        robjs.append(o)
    if whole:
        return d, out, objs, robjs
    out.append(f"build {name}: link " + " ".join(objs + robjs))
    out.append(f"default {name}")
    return d, out, objs, robjs


def run_ninja(d, lines, targets=(), keep=False):
    with open(os.path.join(d, "build.ninja"), "w") as f:
        f.write("\n".join(lines) + "\n")
    cmd = ["ninja", "-C", d, "-j", str(os.cpu_count() or 8)] + (["-k", "0"] if keep else []) + list(targets)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def all_stems():
    r = []
    for root, _, files in os.walk(SRC):
        for f in files:
            p = os.path.relpath(os.path.join(root, f), SRC)
            if f.endswith(".cpp") and not EXCLUDE.search(p):
                r.append(p[:-4])
    return sorted(r)


def build(name):
    """Path of the harness executable; raises BuildError."""
    listed = [l.strip() for l in open(os.path.join(VERIF, "harness", name, "sources.txt")) if l.strip() and not l.startswith("#")]
    stems = [s for s in listed if os.path.exists(os.path.join(SRC, s + ".cpp"))]
    exe = os.path.join(BUILD, name, name)
    d, lines, objs, robjs = ninja_file(name, stems, False)
    rc, log = run_ninja(d, lines)
    if rc == 0:
        return exe
    if "undefined reference" not in log and len(stems) == len(listed):
        raise BuildError(log[-6000:])
    # The code was moved between files: take every source of the repository that compiles.
    d, lines, objs, robjs = ninja_file(name, all_stems(), True)
    run_ninja(d, lines, objs + robjs, keep=True)
    have = [o for o in robjs if os.path.exists(os.path.join(d, o))]
    lines.append("build librepo.a: ar " + " ".join(have))
    lines.append(f"build {name}: link " + " ".join(objs) + " librepo.a")
    rc, log = run_ninja(d, lines, [name])
    if rc != 0:
        raise BuildError(log[-6000:])
    return exe


if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(build(n))
