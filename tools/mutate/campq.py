"""campq.py BASE SECONDS OUT FILE[:from-to]... [--props A,B] [--step k] [--w n]
Mutants of cpp/qugar/*.cpp, each compiled alone and linked with the objects of BASE (made by cppsim/build_quad.sh)."""
import concurrent.futures as cf, os, random, subprocess, sys, tempfile, threading
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); sys.path.insert(0, H)
from mutc import mutants
args = sys.argv[1:]
def opt(n, d):
    global args
    if n in args:
        i = args.index(n); v = args[i + 1]; args = args[:i] + args[i + 2:]; return v
    return d
props = opt("--props", "C21,C22,C23,C24").split(","); step = int(opt("--step", "1")); W = int(opt("--w", "8")); cap = int(opt("--max", "0"))
base, secs, out = args[:3]
jobs = []
for f in args[3:]:
    lo, hi = 0, 10**9
    if ":" in f: f, r = f.split(":"); lo, hi = map(int, r.split("-"))
    js = []
    for k, (d, t) in enumerate(mutants(open(f"/repo/cpp/qugar/{f}.cpp").read())):
        if lo <= int(d.split()[0][1:]) <= hi and k % step == 0: js.append((f, k, d, t))
    if cap and len(js) > cap: js = sorted(random.Random(7).sample(js, cap), key=lambda j: j[1])
    jobs += js
print(len(jobs), "mutants"); sys.stdout.flush()
o = open(out, "a"); lock = threading.Lock()
SAN = "-std=gnu++20 -O1 -g1 -fPIC -DNDEBUG -D_GLIBCXX_ASSERTIONS -w -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fsanitize=thread"
WR = "".join(f" -Wl,--wrap={s}" for s in ("memcpy", "memmove", "memset", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"))
order = [os.path.basename(p)[:-4] for p in sorted(os.listdir("/repo/cpp/qugar")) if p.endswith(".cpp") and p not in ("impl_reparam_bezier.cpp", "qugar.cpp")] + ["quad_bzr_stub", "quad_main", "rt"]
def run(j):
    f, k, d, t = j
    td = tempfile.mkdtemp(prefix="mq"); open(f"{td}/m.cpp", "w").write(t)
    objs = " ".join(f"{td}/m.o" if n == f else f"{base}/{n}.o" for n in order)
    sh = (f"g++ {SAN} -I{base}/inc -I/repo/cpp/include -I{V}/cppsim -I/repo/cpp/qugar -c {td}/m.cpp -o {td}/m.o 2>{td}/err || exit 3; "
          f"g++ -rdynamic -o {td}/q {objs}{WR} -ldl -lpthread || exit 4; rm -f {td}/m.o; . /opt/vp/env.sh; QUADSIM={td}/q VDIR={V} exec $PY {H}/run1.py cppquad {secs} {' '.join(props)}")
    try:
        p = subprocess.run(["bash", "-c", sh], capture_output=True, text=True, timeout=float(secs) * 3 + 240)
        if p.returncode == 3: r = "NOCOMPILE"
        else:
            r = [l for l in p.stdout.splitlines() if l.startswith(("KILLED", "SURVIVED"))]
            r = r[-1] if r else "ERROR " + (p.stdout + p.stderr)[-300:].replace("\n", " | ")
    except subprocess.TimeoutExpired: r = "TIMEOUT"
    subprocess.run(["rm", "-rf", td])
    with lock: o.write(f"{f} #{k} {d} => {r}\n"); o.flush()
    return r
with cf.ThreadPoolExecutor(W) as ex: rs = list(ex.map(run, jobs))
print("killed", sum(r.startswith("KILLED") for r in rs), "survived", sum(r.startswith("SURV") for r in rs), "nocompile", rs.count("NOCOMPILE"), "other", sum(not r.startswith(("KILLED", "SURV", "NOC")) for r in rs))
