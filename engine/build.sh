#!/bin/bash
# builds the symbolic execution engine
cd "$(dirname "$0")"
ZP=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -o dsym.tmp.$$ dsym.cpp -I$ZP/include -L$ZP/lib -lz3 -Wl,-rpath,$ZP/lib && mv dsym.tmp.$$ dsym
