"""Constants found in the code under test, used to steer the workloads.

A change that only misbehaves for a particular text, number or size usually
names it somewhere; feeding such constants (and their neighbours) back as
names, values and sizes makes the workload reach it.
"""
import ast
import os
import re

from .boot import PKG

STRINGS, INTS, SIZES, FLOATS = [], [], [], []


def _walk():
    strings, ints, floats = set(), set(), set()
    for root, _, files in sorted(os.walk(PKG)):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(root, f), encoding='utf-8') as h:
                    tree = ast.parse(h.read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            docs = set()
            for n in ast.walk(tree):
                body = getattr(n, 'body', None)
                if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(
                        getattr(body[0], 'value', None), ast.Constant):
                    docs.add(id(body[0].value))
                if isinstance(n, ast.keyword) and n.arg:
                    strings.add(n.arg)
                if isinstance(n, ast.arg):
                    strings.add(n.arg)
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value
                    if isinstance(v, str) and v:
                        if len(v) <= 80:
                            strings.add(v)
                            strings.update(w for w in v.split() if len(w) <= 40)
                            strings.add(re.sub(r'%[-#0-9.]*[a-z]|%\([a-z_]+\)[a-z]|\{[^{}]*\}', '', v))      # a template without its fields
                    elif isinstance(v, bool):
                        continue
                    elif isinstance(v, int):
                        ints.update((v - 1, v, v + 1, -v))
                    elif isinstance(v, float):
                        floats.add(v)
                    elif isinstance(v, bytes):
                        try:
                            strings.add(v.decode('utf-8'))
                        except UnicodeDecodeError:
                            pass
    return sorted(s for s in strings if s), sorted(ints), sorted(floats)


STRINGS, INTS, FLOATS = _walk()
SIZES = [n for n in INTS if 2 <= n <= 1100]
BIG_SIZES = [n for n in INTS if 1100 < n <= 70000]
