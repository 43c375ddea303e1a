"""Compiles driver units against /repo's headers: to LLVM IR (the text the
verifier reads) and to a shared object with g++ (for replays)."""
import subprocess, os, hashlib, tempfile, shutil, sys, atexit
REPO = os.environ.get('CV_REPO', '/repo')
CLANG = shutil.which('clang++-18') or shutil.which('clang++')
OPT = shutil.which('opt-18') or shutil.which('opt') or '/usr/lib/llvm-18/bin/opt'
WORK = tempfile.mkdtemp(prefix='cv_')
def _clean():
    shutil.rmtree(WORK, ignore_errors=True)
atexit.register(_clean)

STDHDR = '''
#include <concepts>
#include <cstdint>
#include <cmath>
#include <type_traits>
#include <algorithm>
#include <compare>
#include <bit>
#include <cassert>
#include <numbers>
#include <utility>
#include <span>
#include <ranges>
#include <vector>
#include <set>
#include <map>
#include <memory_resource>
#include <cstring>
#include <tuple>
#include <optional>
#include <limits>
#include <stdexcept>
#include <iterator>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <ostream>
#include <iostream>
#include <charconv>
#include <queue>
#include <unordered_map>
#include <numeric>
#include <atomic>
#include <initializer_list>
#include <cstddef>
'''
# the configuration selected under g++ (which builds and tests /repo)
AS_GCC = '''
#pragma clang diagnostic ignored "-Wbuiltin-macro-redefined"
#undef __has_builtin
#define __has_builtin(x) 0
#undef __clang__
'''
CONF = {
    'gcc': ([], STDHDR + AS_GCC),
    'clang': ([], STDHDR),
    'noext': (['-DPOLY_OPS_NO_COMPILER_EXTENSIONS'], STDHDR),
}
class BuildError(Exception):
    pass

def compile_ir(name, src, conf='gcc', extra=(), passes='function(sroa,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;no-switch-range-to-icmp>)'):
    flags, pre = CONF[conf]
    base = os.path.join(WORK, '%s_%s' % (name, conf))
    with open(base + '.cpp', 'w') as f: f.write(pre + src)
    cmd = [CLANG, '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-access-control', '-w',
           '-fno-discard-value-names', '-ffp-contract=off', '-I', REPO + '/include', *flags, *extra, '-S', '-emit-llvm', base + '.cpp', '-o', base + '.0.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:6000])
    r = subprocess.run([OPT, '-passes=' + passes, base + '.0.ll', '-S', '-o', base + '.ll'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:3000])
    return open(base + '.ll').read()

def compile_so(name, src, conf='gcc', extra=(), opt='-O1'):
    """the real code, built with g++ as the tests are"""
    flags = [] if conf != 'noext' else ['-DPOLY_OPS_NO_COMPILER_EXTENSIONS']
    base = os.path.join(WORK, '%s_%s_so' % (name, conf))
    with open(base + '.cpp', 'w') as f: f.write(STDHDR + src)
    cxx = ['g++'] if conf != 'clang' else [CLANG]
    r = subprocess.run([*cxx, '-std=c++20', opt, '-fno-access-control', '-w', '-fPIC', '-shared', '-I', REPO + '/include', *flags, *extra, base + '.cpp', '-o', base + '.so'],
                       capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:6000])
    return base + '.so'
