#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current sources."""
import os, sys, time, shutil, subprocess, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=os.path.join(HERE, 'build'))
    try:
        for f in ('irdump', 'liblp.so'):
            if not os.path.exists(os.path.join(HERE, 'build', f)):
                subprocess.check_call(['bash', os.path.join(HERE, 'setup.sh')])
        import props
        return props.run(prop, tmp, HERE)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    try:
        r = main()
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        traceback.print_exc()
        print('ANALYSIS ERROR: %s' % e)
        r = 2
    sys.exit(r)
