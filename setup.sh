#!/bin/sh
# nothing to build: the checks need python3, clang-18 and opt-18 only
exec python3 -c 'import sys; sys.path.insert(0,"sa"); import ir; print("ok")'
