"""upstream_tests.py: compiles sot-core's own C++ unit tests against the
stand-in for dynamic-graph and runs them.  The official build cannot compile
them (dynamic-graph and pinocchio are not installed here); that they pass is
evidence that the stand-in behaves like the library it stands for.  Work stays
in a scratch directory; nothing is registered as a check."""
import concurrent.futures as cf, glob, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, '/verif')
import run as R
NAMES = '''control/test_control_pd control/test_control_admittance factory/test_factory features/test_feature_point6d features/test_feature_generic
filters/test_filter_differentiator filters/test_madgwick_ahrs signal/test_signal signal/test_depend signal/test_ptr signal/test_dep signal/test_ptrcast
sot/tsot traces/files traces/test_traces task/test_flags task/test_gain task/test_multi_bound task/test_task tools/test_boost tools/test_device
tools/test_sot_loader tools/test_mailbox tools/test_matrix tools/test_robot_utils tools/test_abstract_interface math/matrix-twist
math/matrix-homogeneous matrix/test_operator'''.split()
w = tempfile.mkdtemp(prefix='vut.', dir='/tmp')
py = subprocess.run(['/usr/bin/python3-config', '--includes'], capture_output=True, text=True).stdout.split()
ld = subprocess.run(['/usr/bin/python3-config', '--ldflags', '--embed'], capture_output=True, text=True).stdout.split()
FL = ['-std=c++14', '-w', '-O1', '-DBOOST_TEST_DYN_LINK', '-DBOOST_TEST_MAIN', '-DTESTS_DYNLIBSUFFIX=".so"', '-DLIB_PLUGIN_ABSTRACT_PATH="%s/libdummy.so"' % w,
      '-DTEST_GOOD_PYTHON_SCRIPT="/repo/tests/tools/good_python_script.py"', '-DTEST_BAD_PYTHON_SCRIPT="/repo/tests/tools/bad_python_script"',
      '-I/repo/include', '-I/repo/src', '-I/repo/tests', '-I/verif/standin/include', '-isystem', '/usr/include/eigen3', '-I' + w, '-I' + w + '/tests'] + py
src = [s for s in R.directives('/verif/checks/L21.cpp')['sources']] + ['src/tools/sot-loader.cpp']


def cc(s):
    o = '%s/%s.o' % (w, s.replace('/', '_'))
    return o if not subprocess.run(['clang++'] + FL + ['-c', '/repo/' + s, '-o', o, '-fPIC'], stderr=subprocess.DEVNULL).returncode else None


def one(n):
    s = '/repo/tests/%s.cpp' % n
    x = w + '/' + n.replace('/', '_')
    text = open(s).read()
    lib = ['-Wl,--whole-archive', w + '/lib.a', '-Wl,--no-whole-archive'] if 'operator.cpp"' not in text else ['-Wl,--whole-archive', w + '/libnoop.a', '-Wl,--no-whole-archive']
    p = subprocess.run(['clang++'] + FL + [s, w + '/src_debug_debug.cpp.o'] + lib + ['-o', x, '-rdynamic', '-lboost_unit_test_framework', '-lboost_filesystem', '-lboost_program_options', '-lboost_thread', '-ldl', '-lpthread'] + ld, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        m = re.search(r'(error|undefined|cannot find).*', p.stderr)
        return n, 'does not build: ' + (m.group(0) if m else '')[:110]
    os.makedirs(x + '.d')
    q = subprocess.run([x], cwd=x + '.d', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=120, text=True, errors='replace')
    e = re.search(r'error:.*|Assertion.*', q.stdout)
    return n, 'passes' if not q.returncode else 'FAILS: ' + (e.group(0) if e else q.stdout[-110:])[:200]


try:
    os.makedirs(w + '/tests')
    open(w + '/test-paths.h', 'w').write('#define TESTS_PLUGINDIR "%s"\n' % w)
    shutil.copy(w + '/test-paths.h', w + '/tests/test-paths.h')
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, src))
        assert all(objs)
        rest = [o for o in objs if not o.endswith('src_debug_debug.cpp.o')]
        subprocess.run(['ar', 'rcs', w + '/lib.a'] + rest)
        subprocess.run(['ar', 'rcs', w + '/libnoop.a'] + [o for o in rest if not o.endswith('src_matrix_operator.cpp.o')])
        subprocess.run(['clang++'] + FL + ['-shared', '-fPIC', '/repo/tests/tools/dummy-sot-external-interface.cc', '-o', w + '/libdummy.so'], stderr=subprocess.DEVNULL)
        for n, r in ex.map(one, NAMES):
            print('%-40s %s' % (n, r))
finally:
    shutil.rmtree(w)
