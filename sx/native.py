"""Helpers for vfs.py that must not be instrumented."""
__sx__ = True

import codecs as codecs_module
import datetime
import hashlib
import io as io_module
import os
import pwd
import shutil
import time as time_module

import z3

from . import core
from .core import SymStr, SymInt, DecAtom, Ch, mkstr, elems, Inconclusive, _b

UnsupportedOperation = io_module.UnsupportedOperation
PathLike = os.PathLike
algorithms_guaranteed = hashlib.algorithms_guaranteed
ignore_patterns = shutil.ignore_patterns


def u8(cp):
    return 1 if cp < 0x80 else 2 if cp < 0x800 else 3 if cp < 0x10000 else 4


def charlen(s):
    """length of text in characters, without fixing the values of decimal parts"""
    if isinstance(s, str):
        return len(s)
    n, parts = 0, []
    for c in s.c:
        if isinstance(c, DecAtom):
            e = z3.IntVal(16)
            for d in range(15, 0, -1):
                e = z3.If(c.i.e < 10 ** d, z3.IntVal(d), e)
            parts.append(e)
        else:
            n += 1
    return core.mkint(z3.simplify(z3.Sum([z3.IntVal(n)] + parts))) if parts else n


def utf8len(s):
    """byte length of text (symbolic parts give a symbolic length)"""
    if isinstance(s, str):
        return len(s.encode("utf-8"))
    n = 0
    parts = []
    for c in s.c:
        if isinstance(c, int):
            n += u8(c)
        elif isinstance(c, DecAtom):
            e = z3.IntVal(16)
            for d in range(15, 0, -1):
                e = z3.If(c.i.e < 10 ** d, z3.IntVal(d), e)
            parts.append(e)
        else:
            lens = sorted(set(u8(x) for x in c.dom))
            if len(lens) == 1:
                n += lens[0]
            else:
                e = z3.IntVal(lens[-1])
                for L in reversed(lens[:-1]):
                    lim = {1: 0x80, 2: 0x800, 3: 0x10000}[L]
                    e = z3.If(c.e < lim, z3.IntVal(L), e)
                parts.append(e)
    if not parts:
        return n
    return SymInt(z3.simplify(z3.Sum([z3.IntVal(n)] + parts)))


def is_concrete(s):
    return isinstance(s, (str, bytes))


def encode(s):
    return s.encode("utf-8")


def encode_any(s):
    if isinstance(s, str):
        return s.encode("utf-8")
    from . import hooks
    return hooks.VFSMOD.SymBytes([s])


def decode(b):
    return b.decode("utf-8")


def codec_lookup(e):
    return codecs_module.lookup(e)


def translate_newlines(t):
    """universal newlines: \\r\\n and \\r become \\n"""
    c = elems(t)
    out = []
    i = 0
    while i < len(c):
        x = c[i]
        if not isinstance(x, DecAtom) and bool(core.ch_eq(x, 13)):
            out.append(10)
            if i + 1 < len(c) and not isinstance(c[i + 1], DecAtom) and bool(core.ch_eq(c[i + 1], 10)):
                i += 1
        else:
            out.append(x)
        i += 1
    return mkstr(out)


def split_lines(t, breaks):
    return core.split_lines(t, breaks, True)


_pw = None


def passwd():
    global _pw
    if _pw is None:
        _pw = [(p.pw_name, p.pw_dir) for p in pwd.getpwall()]
    return _pw


def hash_new(alg):
    return hashlib.new(alg)


def hash_hex(alg, b):
    h = hashlib.new(alg, b)
    if alg.startswith("shake"):
        return h.hexdigest(32)
    return h.hexdigest()


def utcdate(t):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
