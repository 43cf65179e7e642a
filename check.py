#!/usr/bin/env python3
"""Decides one property: check.py P01 [--tier quick|thorough] [--replay FILE]."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import importlib
import engine

PROPS = {}
for name in ('props_lang', 'props_lang2', 'props_vm', 'props_api', 'props_lib', 'props_text', 'props_code', 'props_ext', 'props_msg'):
    if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib', name + '.py')): continue
    m = importlib.import_module(name)
    for n in dir(m):
        c = getattr(m, n)
        if isinstance(c, type) and issubclass(c, engine.Prop) and c.id: PROPS[c.id] = c

if __name__ == '__main__': engine.main(PROPS)
