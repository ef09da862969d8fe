"""Write /verif/seeded/<id>/ from edits: mkbug.bug(id, prop, needs, breaks, [(file, old, new)...], demo, extra={name: text})."""
import json, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bug(id, prop, needs, breaks, edits, demo, extra=None):
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix='mkbug-')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A -f . && '
                              'git -c user.email=a@b -c user.name=a commit -qm base' % (t, t), shell=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p, encoding='latin1').read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w', encoding='latin1').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=t)
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        shutil.rmtree(t)
    with open(d + '/demo.sh', 'w') as f:
        f.write(demo if demo.startswith('#!') else '#!/bin/bash\n' + demo)
    os.chmod(d + '/demo.sh', 0o755)
    for n, s in (extra or {}).items():
        open(os.path.join(d, n), 'w').write(s)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
