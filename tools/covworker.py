"""Development: PBT_WORKER=tools/covworker.py appends the lines of the code
under test that were run to /tmp/oqcov/<pid>"""
import sys
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'jy'))
out = open('/tmp/oqcov/%s' % os.path.basename(sys.argv[1]) + str(os.getpid()), 'a')
seen = {}


def tracer(frame, event, arg):
    fn = frame.f_code.co_filename
    if 'commonlib' not in fn and 'NRMLconvert' not in fn:
        return None
    return local


def local(frame, event, arg):
    k = (frame.f_code.co_filename.split('/')[-1], frame.f_lineno)
    if k not in seen:
        seen[k] = 1
        out.write('%s %d\n' % k)
        out.flush()
    return local

sys.settrace(tracer)
execfile(os.path.join(HERE, 'jy', 'worker.py'))
