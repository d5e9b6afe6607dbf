"""
Stand-in for psutil 1.x.  The processes, their memory and which of them deny
access are a table the harness fills in: Process(pid) looks the pid up in
TABLE at every call.  A pid that is not in the table is a process using 0
bytes (the code under test monitors its own pid by default).
"""
import collections

version_info = (1, 2, 1)
_Mem = collections.namedtuple('meminfo', 'rss vms')
_Usage = collections.namedtuple('usage', 'total used free percent')


class Error(Exception):
    pass


class NoSuchProcess(Error):
    def __init__(self, pid, name=None, msg=None):
        Error.__init__(self, pid)
        self.pid = pid


class AccessDenied(Error):
    def __init__(self, pid=None, name=None, msg=None):
        Error.__init__(self, pid)
        self.pid = pid


TABLE = {}       # pid -> rss (an integer), or 'denied'
READS = []       # pids whose memory has been read, in order
PERCENT = [10.0]  # used memory


class Process(object):
    def __init__(self, pid=None):
        self.pid = pid
        if TABLE.get(pid) == 'missing':
            raise NoSuchProcess(pid)

    def get_memory_info(self):
        READS.append(self.pid)
        rss = TABLE.get(self.pid, 0)
        if rss == 'denied':
            raise AccessDenied(self.pid)
        if rss == 'missing':
            raise NoSuchProcess(self.pid)
        return _Mem(rss, rss)

    memory_info = get_memory_info

    def __eq__(self, other):
        return isinstance(other, Process) and self.pid == other.pid

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.pid)


def phymem_usage():
    return _Usage(1000, 10 * PERCENT[0], 1000 - 10 * PERCENT[0], PERCENT[0])


virtual_memory = phymem_usage


def pid_exists(pid):
    return TABLE.get(pid) != 'missing'


def get_pid_list():
    return sorted(TABLE)
