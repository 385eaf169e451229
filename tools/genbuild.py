#!/usr/bin/env python3
"""Generate /verif/build/build.ninja: every check as a target, from /repo's current sources.

Each checks/<ID>.cpp carries a line   // MC-BUILD: san=<none|address> [opt=-O1] [big=0|1] [extra=<file.cpp>]
The library sources are compiled into one archive per sanitizer variant; archive
semantics pull only the members a check needs, but all of them must be built, so the
expensive members (collide/distance/continuous dispatch tables) are only
linked (and hence only built) for checks that say big=1."""
import os, re, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', V + '/build')
os.makedirs(B, exist_ok=True)
cfg = B + '/cfg'
# config.h, export.h and fcl.h come from the repository's own configuration step
subprocess.run(['cmake', '-S', R, '-B', cfg, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=Release', '-DBUILD_TESTING=OFF',
                '-DFCL_STATIC_LIBRARY=ON', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
BIG = ['src/narrowphase/collision.cpp', 'src/narrowphase/distance.cpp', 'src/narrowphase/continuous_collision.cpp']
def srcs():
    out = []
    for d, _, fs in os.walk(R + '/src'):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.relpath(os.path.join(d, f), R))
    return sorted(out)
S = srcs()
ARCH = '-DNDEBUG -msse -msse2 -msse3 -mssse3 -mfpmath=sse'
INC = f'-I{cfg}/include -I{R}/include -isystem /usr/include/eigen3'
SAN = {'none': '', 'address': '-fsanitize=address -fno-omit-frame-pointer -g1', 'race': '-fsanitize=thread -g1'}   # race: instrumented like for tsan, linked with lib/race_rt.cpp instead of the tsan runtime
L = []
w = L.append
w('rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out')
w('rule link\n  command = g++ $lflags -o $out $in $libs\n  description = LINK $out')
w('rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out')
def lib(san, opt, big):
    """archives for this variant: returns list of archive names (big first)"""
    tag = san + opt.replace('-', '')
    return tag
done = {}
def groups(san, opt):
    tag = san + opt.replace('-', '')
    if tag in done: return done[tag]
    small, bigs = [], {}
    # expensive ones first so that ninja starts them first
    for s in sorted(S, key=lambda x: (x not in BIG, x)):
        o = f'obj-{tag}/{s[4:].replace("/", "_")}.o'
        # `static` dispatch tables need no optimisation to be faithful; IEEE semantics are the same at every level
        o_opt = opt
        w(f'build {o}: cxx {R}/{s}\n  flags = -std=c++11 {o_opt} {SAN[san]} {ARCH} -w {INC} $extraflags')
        if s in BIG: bigs[os.path.basename(s)[:-4]] = o
        else: small.append(o)
    w(f'build lib-{tag}.a: ar {" ".join(small)}')
    done[tag] = (f'lib-{tag}.a', bigs)
    return done[tag]
for f in sorted(glob.glob(V + '/checks/*.cpp')):
    cid = os.path.basename(f)[:-4]
    m = re.search(r'MC-BUILD:(.*)', open(f).read())
    if not m: continue
    opts = dict(kv.split('=', 1) for kv in m.group(1).split())
    san = opts.get('san', 'none'); opt = opts.get('opt', '-O1')
    a, bigs = groups(san, opt)
    bl = [bigs[b] for b in opts.get('big', '').split(',') if b in bigs]
    objs = []
    nsrc = max(1, int(opts.get('parts', '1')))
    for p in range(nsrc):
        o = f'chk/{cid}.{p}.o'
        w(f'build {o}: cxx {f}\n  flags = -std=c++17 {opts.get("hopt", "-O1")} {SAN[san]} {ARCH} -w {INC} -I{V}/lib -DMC_PART={p}')
        objs.append(o)
    lf = SAN[san]
    if san == 'race':
        if not os.environ.get('_race_rt'): w(f'build chk/race_rt.o: cxx {V}/lib/race_rt.cpp\n  flags = -std=c++17 -O2 -g1'); os.environ['_race_rt'] = '1'
        objs.append('chk/race_rt.o'); lf = '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'
    w(f'build bin/{cid}: link {" ".join(objs + bl)} | {a}\n  lflags = {lf}\n  libs = {a} -lccd -loctomap -loctomath -lpthread -ldl')
    w(f'build {cid}: phony bin/{cid}')
open(B + '/build.ninja.tmp', 'w').write('\n'.join(L) + '\n')
new = open(B + '/build.ninja.tmp').read()
try: old = open(B + '/build.ninja').read()
except OSError: old = None
if new != old: os.replace(B + '/build.ninja.tmp', B + '/build.ninja')
else: os.remove(B + '/build.ninja.tmp')
