#!/usr/bin/env python3
"""Builds the simulator, the rank objects (jaxions library + programs, from /repo's working tree) and the driver
into $JX_BUILD (default /verif/build).  Incremental through ninja."""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('JX_REPO', '/repo')
OUT  = os.environ.get('JX_BUILD', os.path.join(os.path.dirname(HERE), 'build'))
MAXR = 4
LIBDIR = '/usr/lib/x86_64-linux-gnu'
UNITS = {'harn': None, 'vax': 'vaxions.cpp', 'wkv': 'WKVaxion.cpp', 'pax': 'Paxions.cpp', 'redu': 'reduce.cpp', 'gad': 'gadgetme.cpp', 'grv': 'gravi3.cpp'}
THIRD = ['libhdf5_openmpi.so.103', 'libfftw3.so.3', 'libfftw3f.so.3', 'libfftw3_omp.so.3', 'libfftw3f_omp.so.3', 'libfftw3_mpi.so.3', 'libfftw3f_mpi.so.3']

def objs():
    t = open(os.path.join(REPO, 'lib/CMakeLists.txt')).read()
    m = re.search(r'set\s*\(\s*OBJS(.*?)\)', t, re.S)
    return [s for s in m.group(1).split() if s.endswith('.cpp')]

def nranks(third): return third.replace('.so', '_r%d.so')

def main():
    os.makedirs(OUT, exist_ok=True); os.makedirs(OUT + '/gen', exist_ok=True)
    split = not os.path.exists(OUT + '/nosplit')
    pots = []
    if split:
        try: pots = sorted(set(re.findall(r'CASE\(aPT,\s*(\w+)\)', open(REPO + '/include/propagator/prop-def-mac.h').read())))
        except OSError: pots = []
    w = []
    inc = '-I%s/lib -I%s/include -isystem %s/openmpi/include -isystem %s/openmpi/include/openmpi -I/usr/include/hdf5/openmpi' % (REPO, REPO, LIBDIR, LIBDIR)
    base = '-fopenmp -mavx2 -mfma -DUSE_PROP_RKN4 -mcmodel=medium -std=gnu++14 -w -fPIC -fno-gnu-unique -DOMPI_SKIP_MPICXX -fno-omit-frame-pointer -g1'
    w.append('cxx = g++')
    w.append('rflags = %s %s -O1 -fsanitize=thread' % (inc, base))
    w.append('''rule rank
  command = $cxx $rflags $extra -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule sim
  command = $cxx -std=c++17 -O2 -g1 -w -fPIC -fno-omit-frame-pointer -I%s/openmpi/include -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule drv
  command = $cxx -std=c++17 -O1 -g1 -w -I%s/core -I%s/ranks -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule simlink
  command = $cxx -shared $in -Wl,--version-script=%s/core/libsim.map -Wl,-soname,libsim.so -o $out -ldl
rule drvlink
  command = $cxx $in -L%s -Wl,--no-as-needed -lsim -ldl -Wl,-rpath,%s -rdynamic -o $out
rule ranklink
  command = $cxx -shared -fPIC -nostartfiles -Wl,-Bsymbolic -Wl,-soname,$soname -Wl,-z,lazy -Wl,--allow-multiple-definition -o $out %s/crti.o /usr/lib/gcc/x86_64-linux-gnu/13/crtbeginS.o $in -L%s -l:libhdf5_openmpi_r0.so.103 -l:libfftw3_omp_r0.so.3 -l:libfftw3f_omp_r0.so.3 -l:libfftw3_mpi_r0.so.3 -l:libfftw3f_mpi_r0.so.3 -l:libfftw3_r0.so.3 -l:libfftw3f_r0.so.3 -lgsl -lgslcblas -lsim -lm /usr/lib/gcc/x86_64-linux-gnu/13/crtendS.o %s/crtn.o -Wl,-rpath,'$$ORIGIN'
rule third
  command = cp -f $in $out.t && patchelf --set-soname $soname --set-rpath '$$ORIGIN' $repl $out.t && mv $out.t $out
rule copyrank
  command = cp -f $in $out.t && patchelf --set-soname $soname $repl $out.t && mv $out.t $out
''' % (LIBDIR, HERE, HERE, HERE, OUT, OUT, LIBDIR, OUT, LIBDIR))
    simo = []
    for c in ['sched', 'omp', 'mpi', 'mpiio', 'seams']:
        w.append('build %s/o/sim_%s.o: sim %s/core/%s.cpp' % (OUT, c, HERE, c)); simo.append('%s/o/sim_%s.o' % (OUT, c))
    w.append('build %s/libsim.so: simlink %s | %s/core/libsim.map' % (OUT, ' '.join(simo), HERE))
    # driver
    drvo = []
    for f in sorted(os.listdir(HERE + '/driver')):
        if f.endswith('.cpp'):
            o = '%s/o/drv_%s.o' % (OUT, f[:-4]); w.append('build %s: drv %s/driver/%s' % (o, HERE, f)); drvo.append(o)
    if drvo: w.append('build %s/jxsim: drvlink %s | %s/libsim.so' % (OUT, ' '.join(drvo), OUT))
    # library objects
    libo = []
    def ro(name, src, extra=''):
        o = '%s/o/%s.o' % (OUT, name)
        w.append('build %s: rank %s\n  extra = %s' % (o, src, extra)); return o
    srcs = objs()
    srcs.sort(key=lambda s: {'propagator/propagator.cpp': 0, 'spectrum/spectrum.cpp': 1, 'energy/energyXeon.cpp': 1}.get(s, 2))
    for s in srcs:
        name = 'lib_' + s[:-4].replace('/', '_')
        if s == 'propagator/propagator.cpp' and pots:
            NP = 9
            parts = [pots[i::NP] for i in range(NP)]
            for i, p in enumerate(parts):
                if not p: continue
                put('%s/gen/prop_part%d.cpp' % (OUT, i), '#include <cstdio>\n#include <cstdlib>\n#include <memory>\n#include <chrono>\n#include <string>\n#include <vector>\n#include "scalar/scalarField.h"\n#include "scalar/folder.h"\n#include "enum-field.h"\n#include "propagator/propClass.h"\n' + ''.join('template class PropClass<4,PROP_NORMAL,%s>;\n' % q for q in p))
                libo.append(ro('prop_part%d' % i, '%s/gen/prop_part%d.cpp' % (OUT, i)))
            put('%s/gen/prop_main.cpp' % OUT, '#include <cstdio>\n#include <cstdlib>\n#include <memory>\n#include <chrono>\n#include <string>\n#include <vector>\n#include "scalar/scalarField.h"\n#include "scalar/folder.h"\n#include "enum-field.h"\n#include "propagator/propClass.h"\n' + ''.join('extern template class PropClass<4,PROP_NORMAL,%s>;\n' % q for q in pots) + '#include "%s/lib/propagator/propagator.cpp"\n' % REPO)
            libo.append(ro('prop_main', '%s/gen/prop_main.cpp' % OUT, '-I%s/lib/propagator' % REPO))
        else:
            libo.append(ro(name, '%s/lib/%s' % (REPO, s)))
    for k in range(MAXR):
        for t in THIRD:
            so = nranks(t) % k
            repl = '--replace-needed libmpi.so.40 libsim.so --replace-needed libgomp.so.1 libsim.so ' + ' '.join('--replace-needed %s %s' % (x, nranks(x) % k) for x in THIRD if x != t)
            w.append('build %s/%s: third %s/%s | %s/libsim.so\n  soname = %s\n  repl = %s' % (OUT, so, LIBDIR, t, OUT, so, repl))
    units = [u for u in sys.argv[1:] if u in UNITS] if len(sys.argv) > 1 else list(UNITS)
    targets = ['%s/libsim.so' % OUT] + (['%s/jxsim' % OUT] if drvo else [])
    for u in UNITS:
        src = UNITS[u]
        uo = list(libo)
        if src: uo.append(ro('prog_' + u, '%s/test/%s' % (REPO, src), '-Dmain=prog_main'))
        else:
            for f in sorted(os.listdir(HERE + '/ranks')):
                if f.endswith('.cpp'): uo.append(ro('rank_' + f[:-4], '%s/ranks/%s' % (HERE, f), ('-I%s/core' % HERE) + (' -fno-sanitize=thread' if f in ('harness.cpp', 'h5read.cpp') else '')))
        third0 = ' '.join('%s/%s' % (OUT, nranks(t) % 0) for t in THIRD)
        w.append('build %s/unit_%s_r0.so: ranklink %s | %s %s/libsim.so\n  soname = unit_%s_r0.so' % (OUT, u, ' '.join(uo), third0, OUT, u))
        ts = ['%s/unit_%s_r0.so' % (OUT, u)]
        for k in range(1, MAXR):
            repl = ' '.join('--replace-needed %s %s' % (nranks(x) % 0, nranks(x) % k) for x in THIRD)
            tk = ' '.join('%s/%s' % (OUT, nranks(t) % k) for t in THIRD)
            w.append('build %s/unit_%s_r%d.so: copyrank %s/unit_%s_r0.so | %s\n  soname = unit_%s_r%d.so\n  repl = %s' % (OUT, u, k, OUT, u, tk, u, k, repl))
            ts.append('%s/unit_%s_r%d.so' % (OUT, u, k))
        if u in units: targets += ts
    put(OUT + '/build.ninja', '\n'.join(w) + '\n')
    r = subprocess.run(['ninja', '-C', OUT, '-f', 'build.ninja'] + ([] if os.environ.get('JX_VERBOSE') else ['--quiet']) + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and pots:
        open(OUT + '/nosplit', 'w').write('1'); return main()      # e.g. the class templates changed shape: build the propagator unsplit
    if r.returncode: sys.stderr.write(r.stdout[-6000:]); return r.returncode
    return 0

def put(p, s):
    try:
        if open(p).read() == s: return
    except OSError: pass
    open(p, 'w').write(s)
sys.exit(main())
