#!/bin/sh
# show the parse errors of a law file the way the extractor sees it
cd "$(dirname "$0")/.." && clang++ -fsyntax-only -std=gnu++20 -DNEOLIB_HOSTED_ENVIRONMENT -DNDEBUG -mavx -Ilaws/shim -I${NSA_REPO:-/repo}/include -Ilaws/gen -Ilaws -Wno-everything -ferror-limit=0 -include laws/nsa_shim.hpp "$@"
