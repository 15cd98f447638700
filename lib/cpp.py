"""Runs the C++ harness (harness.cpp) on a list of commands."""
import os
import resource
import subprocess

from monitor import Inconclusive, Violation


def run(commands, env=None, timeout=200):
    """The answer to each command, as a list of lines. A process that dies is a violation."""
    where = os.path.join(os.environ['VERIF_CPP'], 'harness')
    full = dict(os.environ)
    full.pop('LD_PRELOAD', None)
    full.pop('LD_LIBRARY_PATH', None)
    full['ASAN_OPTIONS'] = 'detect_leaks=1:allocator_may_return_null=0:abort_on_error=0:exitcode=77'
    full['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
    full.update(env or {})
    try:
        done = subprocess.run([where], input='\n'.join(commands) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              universal_newlines=True, env=full, timeout=timeout, errors='replace',
                              preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (100, 100)))   # normal runs take a second or two
    except subprocess.TimeoutExpired:
        raise Inconclusive('the C++ harness did not end within %d s' % timeout)
    answers, current = [], []
    for line in done.stdout.split('\n'):
        if line == '.':
            answers.append(current)
            current = []
        elif line:
            current.append(line)
    if done.returncode or len(answers) != len(commands):
        if done.returncode == -9:
            raise Inconclusive('the C++ harness was killed')
        at = commands[len(answers)] if len(answers) < len(commands) else 'the end'
        raise Violation('C++ process ended with %d at %s: %s' % (done.returncode, at, (done.stderr or '')[-3000:]), 'cpp-crash')
    return answers


def refused(answer):
    return any(line.startswith('refused') for line in answer)


def numbers(line, skip=0):
    return [float(x) for x in line.split()[skip:]]
