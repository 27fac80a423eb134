#!/bin/bash
# dev: rebuild only
exec python3 -c "
import sys; sys.path.insert(0,'/verif'); sys.argv=['check']
import importlib.util,importlib.machinery
l=importlib.machinery.SourceFileLoader('chk','/verif/check'); m=importlib.util.module_from_spec(importlib.util.spec_from_loader('chk',l)); l.exec_module(m); m.build()"
