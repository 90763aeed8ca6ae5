#!/bin/bash
# builds the verifier and the bitcode of the current tree (both are rebuilt on demand by every check)
cd "$(dirname "$0")" && exec python3 -c 'import sys; sys.path.insert(0,"vlib"); import vbuild; vbuild.engine(); print(vbuild.module(["p01_arm.cpp"])[0])'
