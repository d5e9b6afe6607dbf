import os
import codec
from h_ltree import err
from openquake.commonlib import readini


def parse(files, cwd, name, absolute):
    """parse_config of the file `name` (in the case's directory) from the
    directory cwd; WORK stands for the case's directory"""
    for f, content in files.items():
        codec.write(f, content.replace('@WORK@', codec.WORK))
    codec.path(cwd, 'x')
    os.chdir(codec.path(cwd, '')[:-1] if cwd else codec.WORK)
    path = codec.path(name)
    if not absolute:
        path = os.path.relpath(path)
    elif absolute == 'dots':
        path = os.path.join(os.path.dirname(path), '.',
                            os.path.basename(path))

    def hide(x):
        if isinstance(x, basestring):
            return x.replace(codec.WORK, '@WORK@')
        if isinstance(x, list):
            return [hide(i) for i in x]
        if isinstance(x, dict):
            return dict((k, hide(v)) for k, v in x.items())
        return x

    def run():
        with open(path) as f:
            p = readini.parse_config(f)
        return [hide(p), type(p).__name__, type(p['inputs']).__name__]
    return err(run)
