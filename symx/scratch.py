"""Scratch directories for harnesses that do file I/O: created under /tmp, left again and removed after the run."""
import os
import shutil
import tempfile


class Scratch(object):
    def __init__(self):
        self.dirs = []
        self.cwd = os.getcwd()

    def new(self):
        d = tempfile.mkdtemp(prefix='symx-')
        self.dirs.append(d)
        return d

    def close(self):
        try:
            os.chdir(self.cwd)
        except OSError:
            pass
        for d in self.dirs:
            if d.startswith(tempfile.gettempdir()) and 'symx-' in d:
                shutil.rmtree(d, ignore_errors=True)
        self.dirs = []
