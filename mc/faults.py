"""Failing input and output at every point.

Inside `with World(n, exc) as w:` every file opened by name goes through a
raw file of ours; the n-th event (opening, reading, writing or closing a file,
making a directory) raises exc.  Everything above the raw file (buffers, text
layers, parsers) is real."""
import builtins
import io
import os
import sys


class Raw(io.FileIO):
    def __init__(self, world, name, mode):
        self.world = world
        super().__init__(name, mode)
        self.wanted = mode
        world.files.append(self)

    def readinto(self, b):
        self.world.event('read', self.name)
        return super().readinto(b)

    def readall(self):
        self.world.event('read', self.name)
        return super().readall()

    def read(self, n=-1):
        self.world.event('read', self.name)
        return super().read(n)

    def write(self, b):
        self.world.event('write', self.name)
        return super().write(b)

    def close(self):
        if not self.closed:
            super().close()
            self.world.event('close', self.name)


class World:
    def __init__(self, at=None, exc=None, small=None):
        self.at, self.exc, self.small = at, exc, small
        self.log, self.files, self.on = [], [], False

    def event(self, kind, name):
        if not self.on:
            return
        self.log.append((kind, str(name)))
        if len(self.log) - 1 == self.at:
            raise self.exc()

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if not self.on or isinstance(file, int) or opener is not None:
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.event('open-' + ('w' if set(mode) & set('wax+') else 'r'), os.fspath(file))
        raw = Raw(self, file, mode.replace('b', '').replace('t', '').replace('U', ''))
        if buffering == 0:
            return raw
        size = self.small or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        buf = (io.BufferedRandom if '+' in mode else
               io.BufferedReader if raw.readable() else io.BufferedWriter)(raw, size)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text

    def __enter__(self):
        self.real, self.mk, self.hook = builtins.open, os.mkdir, sys.unraisablehook
        sys.unraisablehook = lambda x: None

        def mkdir(path, *a, **k):
            self.event('mkdir', path)
            return self.mk(path, *a, **k)
        builtins.open = io.open = self.open
        os.mkdir = mkdir
        self.mkdir = mkdir
        self.on = True
        return self

    def __exit__(self, *a):
        self.on = False
        builtins.open = io.open = self.real
        os.mkdir = self.mk
        sys.unraisablehook = self.hook

    def left_open(self):
        return [f.name for f in self.files if not f.closed]

    def close_all(self):
        for f in self.files:
            if not f.closed:
                f.close()
