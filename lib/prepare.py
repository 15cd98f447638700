"""Prints, as shell assignments, where the build for a check is. What a check needs stands in its NEEDS line."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

def needs(prop):
    with open(os.path.join(build.VERIF, 'checks', prop + '.py')) as stream:
        for node in ast.parse(stream.read()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) == 'NEEDS':
                return ast.literal_eval(node.value)
    return {}

try:
    made = build.prepare(**needs(sys.argv[1]))
except build.BuildError as problem:
    print(problem)
    sys.exit(2)
print('VERIF_TREE=%s' % made['tree'])
print('VERIF_CPP=%s' % made.get('cpp', ''))
print('VERIF_PRELOAD=%s' % made['preload'])
