"""The Jython side of the checks: reads one JSON request per line on stdin,
runs a handler of a h_*.py module against the code under test, writes one
JSON answer per line.  argv: the scratch directory of this worker."""
import sys
import os
import json
import traceback
import shutil
import warnings
warnings.simplefilter('ignore')
import codec

PROTO_OUT = sys.stdout
PROTO_IN = sys.stdin


class Sink(object):
    def __init__(self):
        self.text = []

    def write(self, s):
        if len(self.text) < 10000:
            self.text.append(s)

    def flush(self):
        pass

    def take(self):
        t, self.text = ''.join(self.text), []
        return t

    def isatty(self):
        return False


OUT = Sink()
ERR = Sink()
codec.OUT, codec.ERR = OUT, ERR
codec.SCRATCH = sys.argv[1]
_handlers = {}


def handler(op):
    h = _handlers.get(op)
    if h is None:
        modname, name = op.split('.')
        h = _handlers[op] = getattr(__import__('h_' + modname), name)
    return h


def in_lib(tb):
    n = 0
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.sep + 'commonlib' + os.sep in fn or 'NRMLconvert' in fn:
            n += 1
        tb = tb.tb_next
    return n


def handle(line):
    req = json.loads(line)
    work = os.path.join(codec.SCRATCH, 'case')
    if os.path.exists(work):
        shutil.rmtree(work)
    os.mkdir(work)
    codec.WORK = work
    old = os.getcwd()
    sys.stdout, sys.stderr = OUT, ERR
    try:
        res = {'r': codec.enc(handler(req['op'])(**codec.dec_kw(req['a'])))}
    except BaseException:
        et, ev, tb = sys.exc_info()
        name = getattr(et, '__name__', str(et))
        res = {'x': name, 'lib': in_lib(tb),
               'tb': ''.join(traceback.format_exception(et, ev, tb))[-3000:]}
    except:
        # a Java throwable
        et, ev, tb = sys.exc_info()
        res = {'x': str(et), 'lib': in_lib(tb), 'tb': str(ev)[:500]}
    finally:
        sys.stdout, sys.stderr = PROTO_OUT, sys.__stderr__
        OUT.take()
        ERR.take()
        os.chdir(old)
    return json.dumps(res)


def main():
    while True:
        line = PROTO_IN.readline()
        if not line:
            break
        PROTO_OUT.write(handle(line) + '\n')
        PROTO_OUT.flush()


main()
