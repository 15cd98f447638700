"""Builds what a check needs from /repo's current working tree, into /verif/build/<digest of the sources>.

Steps: the Python 3 translation (/opt/vp/py3/translate.py, the one build.sh uses) of a staged copy without tests,
the C and Cython extensions, and (for the checks that ask for it) the C++ library with a harness.
Everything is compiled here rather than by the repository's setup.py, because the checks want it in parallel and
with a choice of sanitizers."""

import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import time
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
PY = '/opt/venv/bin/python'
SUPPORT = '/opt/vp/py3'
SUBMISSION = 'src/roses/fullstace/advanced_standard'
SAN_FLAGS = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-g', '-O1']


class BuildError(Exception):
    pass


def sources():
    """Paths, relative to /repo, of the non-test sources."""
    found = []
    for directory, subdirs, names in os.walk(os.path.join(REPO, 'src')):
        subdirs[:] = sorted(d for d in subdirs if d not in ('test', '__pycache__', '.pytest_cache', 'build', 'roses'))
        for name in sorted(names):
            if name.endswith(('.so', '.o', '.pyc')) or name == 'worldmap.py':
                continue
            path = os.path.join(directory, name)
            if os.path.isfile(path):
                found.append(os.path.relpath(path, REPO))
    # how tasks are given to the scheduler
    found += sorted(os.path.relpath(path, REPO) for path in glob.glob(os.path.join(REPO, SUBMISSION, 'lsf_*')) if path.endswith(('.py', '.sh')))
    return found


def digest(paths, extra=()):
    h = hashlib.sha256()
    for path in paths:
        with open(os.path.join(REPO, path), 'rb') as stream:
            h.update(path.encode() + b'\0' + hashlib.sha256(stream.read()).digest())
    for path in extra:
        with open(path, 'rb') as stream:
            h.update(stream.read())
    return h.hexdigest()[:16]


def run(cmd, **kwargs):
    done = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kwargs)
    if done.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), done.stdout.decode('utf-8', 'replace')[-4000:]))
    return done.stdout.decode('utf-8', 'replace')


def clean_env():
    env = dict(os.environ)
    env.update(PYTHONPATH='', LC_ALL='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    env.pop('LD_PRELOAD', None)
    return env


def python_tree(paths, where):
    stage = where + '.stage'
    shutil.rmtree(stage, ignore_errors=True)
    for path in paths:
        if path.startswith('src/cpp/'):
            continue
        target = os.path.join(stage, path)
        os.makedirs(os.path.dirname(target), exist_ok=True)
        shutil.copy2(os.path.join(REPO, path), target)
    run([PY, SUPPORT + '/translate.py', stage, where], env=clean_env())
    shutil.rmtree(stage, ignore_errors=True)


def extension_sources(tree):
    src = os.path.join(tree, 'src')
    return sorted(glob.glob(src + '/eustace/**/*.pyx', recursive=True) + glob.glob(src + '/eustace/satgrid/*.c'))


def extensions(tree, sanitize):
    include = run([PY, '-c', 'import numpy, sysconfig; print(numpy.get_include(), sysconfig.get_paths()["include"], '
                   'sysconfig.get_config_var("EXT_SUFFIX"))'], env=clean_env()).split()
    numpy_include, python_include, suffix = include

    def one(path):
        base = os.path.splitext(path)[0]
        flags = ['-fPIC', '-shared', '-fno-strict-aliasing', '-fwrapv', '-w', '-I', numpy_include, '-I', python_include, '-I', os.path.dirname(path)]
        if path.endswith('.pyx'):
            source = base + '.cythonized.c'
            run([PY, '-m', 'cython', '-X', 'embedsignature=True', '-o', source, os.path.relpath(path, tree + '/src')],
                cwd=tree + '/src', env=clean_env())
        else:
            source = path
        run(['gcc'] + (SAN_FLAGS if sanitize else ['-O2']) + flags + [source, '-o', base + suffix, '-lm'], env=clean_env())

    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(one, extension_sources(tree)))


def cpp(where, harness, sanitize):
    """Compiles the library and the given harness sources into <where>/<harness name>."""
    root = os.path.join(REPO, 'src/cpp')
    objects = []
    library = sorted(p for p in glob.glob(root + '/eustace/**/*.cpp', recursive=True)
                     if '/test/' not in p and '/examples/' not in p)
    flags = ['-std=c++14', '-w', '-I', root, '-I', VERIF + '/lib']
    flags += SAN_FLAGS + ['-D_GLIBCXX_ASSERTIONS'] if sanitize else ['-O1']
    os.makedirs(where, exist_ok=True)

    def one(path):
        target = os.path.join(where, hashlib.sha256(path.encode()).hexdigest()[:8] + '-' + os.path.basename(path) + '.o')
        run(['g++'] + flags + ['-c', path, '-o', target], env=clean_env())
        return target

    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        built = list(pool.map(one, library + harness))
    objects = built[:len(library)]
    for path, target in zip(harness, built[len(library):]):
        name = os.path.splitext(os.path.basename(path))[0]
        run(['g++'] + flags + objects + [target, '-o', os.path.join(where, name), '-lnetcdf'], env=clean_env())


def prepare(extension=False, cpp_harness=(), sanitize=False, sanitize_extension=False):
    """The directory with the products of the current sources, building what is not there yet."""
    paths = sources()
    key = digest(paths, [os.path.abspath(__file__)])
    where = os.path.join(BUILD, key)
    os.makedirs(where, exist_ok=True)
    with open(os.path.join(where, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)

        def step(name, action):
            mark = os.path.join(where, name + '.done')
            if not os.path.exists(mark):
                action()
                open(mark, 'w').close()

        def fresh(name, action):
            shutil.rmtree(os.path.join(where, name), ignore_errors=True)
            action(os.path.join(where, name))

        name = 'tree' + ('-san' if sanitize_extension else '')
        step(name, lambda: fresh(name, lambda d: python_tree(paths, d)))
        if extension:
            step(name + '-ext', lambda: extensions(os.path.join(where, name), sanitize_extension))
        result = {'tree': os.path.join(where, name, 'src'), 'preload': ''}
        if sanitize_extension:
            result['preload'] = run(['gcc', '-print-file-name=libasan.so']).strip()
        if cpp_harness:
            harness = [os.path.join(VERIF, 'lib', h) for h in cpp_harness]
            cname = 'cpp-' + digest([], harness) + ('-san' if sanitize else '')
            step(cname, lambda: fresh(cname, lambda d: cpp(d, harness, sanitize)))
            result['cpp'] = os.path.join(where, cname)
    os.utime(where)
    forget_old(key)
    return result


def forget_old(key, keep=4):
    """Removes all but the newest few builds (they accumulate only while the checks are being developed)."""
    found = sorted((os.path.getmtime(p), p) for p in glob.glob(BUILD + '/*') if os.path.isdir(p) and not p.endswith(key))
    for when, path in found[:-keep]:
        if when > time.time() - 1200:  # a check may be using it
            continue
        shutil.rmtree(path, ignore_errors=True)


if __name__ == '__main__':
    print(prepare(extension='ext' in sys.argv, sanitize='san' in sys.argv))
