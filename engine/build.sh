#!/bin/bash
# builds the engine into /verif/build/lsx
set -e
cd "$(dirname "$0")"; mkdir -p ../build
if [ ! -x ../build/lsx ] || [ lsx.cpp -nt ../build/lsx ] || [ term.h -nt ../build/lsx ] || [ sat.h -nt ../build/lsx ] || [ prune.h -nt ../build/lsx ]; then
g++ -O2 -std=c++17 -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') lsx.cpp -o ../build/lsx.tmp.$$ $(llvm-config-18 --ldflags --libs core irreader bitwriter analysis support) -lminisat
mv ../build/lsx.tmp.$$ ../build/lsx
fi
