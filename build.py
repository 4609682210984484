#!/usr/bin/env python3
"""Builds the simulator and the simulated programs from /repo's current tree (ninja, out of tree)."""
import os, subprocess, sys, glob
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PWSIM_REPO', '/repo')
OUT = os.environ.get('PWSIM_OUT', os.path.join(V, '.cache', 'build'))
LIB = 'pwned-lib'
BOOST = '-lboost_program_options -lboost_filesystem -lboost_system -lboost_chrono -lboost_date_time -lboost_thread'
# name: (source directories in /repo, extra sources in /verif/targets, libraries)
TOOLS = {
  'conv': (['pwned-converter-cli', LIB], [], ''),
  'merge': (['pwned-merger-cli', LIB], [], ''),
  'index': (['pwned-index', LIB], [], ''),
  'lookup': (['pwned-lookup-cli', LIB], [], ''),
  'server': (['pwned-server', LIB], [], ''),
  'extract': (['extras/pwned-password-extractor', LIB], [], '-lbz2'),
  'markovgen': (['extras/pwned-markov-generator', LIB], [], ''),
  'markovlookup': (['extras/pwned-markov-lookup', LIB], [], ''),
  'testset': (['extras/pwned-test-set-extractor', LIB], [], ''),
  'be2le': (['deprecated/be2le', LIB], [], ''),
  'benchmark': (['extras/pwned-benchmark', LIB], [], ''),
  'loadtest': (['pwned-server/loadtest', 'pwned-server/uri.cpp', LIB], [], '-lssl'),
  'queuedrv': ([LIB], ['queuedrv.cpp'], ''),
  'inspdrv': ([LIB], ['inspdrv.cpp'], ''),
  'markovdrv': ([LIB], ['markovdrv.cpp'], ''),
}
CXX = 'g++'
INSTR = ('-std=c++17 -O1 -g -fPIC -w -DNO_POPCNT -DNDEBUG -fsanitize=thread -fno-gnu-unique '
         '--param=tsan-instrument-func-entry-exit=0 -fno-strict-aliasing')

def need(tools):
    os.makedirs(OUT, exist_ok=True)
    L = ['ninja_required_version = 1.5', f'builddir = {OUT}',
         'rule simcxx', f'  command = {CXX} -std=c++17 -O2 -g -fPIC -Wall -Wno-nonnull-compare -Wno-sign-compare -Wno-unused-function -Wno-misleading-indentation -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule simld', f'  command = {CXX} -rdynamic -o $out $in -ldl -lpthread -lbz2',
         'rule cxx', f'  command = {CXX} {INSTR} $inc $def -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule so', f'  command = {CXX} -shared -o $out $in -Wl,-Bsymbolic -Wl,--version-script=$ver {BOOST} -lcrypto $libs', '']
    objs = []
    for f in sorted(glob.glob(os.path.join(V, 'sim', '*.cpp'))):
        o = os.path.join(OUT, 'sim', os.path.basename(f) + '.o')
        L += [f'build {o}: simcxx {f}']; objs.append(o)
    exe = os.path.join(OUT, 'pwsim')
    L += [f'build {exe}: simld {" ".join(objs)}']
    targets = [exe]
    libobjs = {}
    for t in tools:
        dirs, extra, libs = TOOLS[t]
        os_ = []
        ver = os.path.join(OUT, t + '.ver')
        txt = '{ global: *%s_main*; local: *; };\n' % t
        if not os.path.exists(ver) or open(ver).read() != txt:
            open(ver, 'w').write(txt)
        for d in dirs:
            for f in sorted(glob.glob(os.path.join(REPO, d) if d.endswith('.cpp') else os.path.join(REPO, d, '*.cpp'))):
                shared = d == LIB
                o = os.path.join(OUT, LIB if shared else t, os.path.basename(f) + '.o')
                if shared and o in libobjs:
                    os_.append(o); continue
                inc = f'-I{REPO} -I{os.path.join(REPO, d)} -I{os.path.join(V, "sim")}'
                L += [f'build {o}: cxx {f}', f'  inc = {inc}', f'  def = {"" if shared else "-Dmain=" + t + "_main"}']
                if shared: libobjs[o] = 1
                os_.append(o)
        for f in extra:
            p = os.path.join(V, 'targets', f); o = os.path.join(OUT, t, f + '.o')
            L += [f'build {o}: cxx {p}', f'  inc = -I{REPO} -I{os.path.join(V, "sim")}', f'  def = -Dmain={t}_main']
            os_.append(o)
        so = os.path.join(OUT, t + '.so')
        L += [f'build {so}: so {" ".join(os_)} | {ver}', f'  ver = {ver}', f'  libs = {libs}']
        targets.append(so)
    nf = os.path.join(OUT, 'build.ninja')
    open(nf, 'w').write('\n'.join(L) + '\n')
    r = subprocess.run(['ninja', '-f', nf, '-j', '10'] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

if __name__ == '__main__':
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    if not names:
        from props import PROPS
        names = sorted({t for p in PROPS.values() for t in p['tools']})
    rc, out = need(names)
    if rc or '-v' in sys.argv: print(out[-6000:])
    sys.exit(rc)
