#!/bin/bash
# Runs upstream's complete unit test suite (the sandbox build can only run a subset) against the
# stand-ins for exe4cpp and ser4cpp: tools/upstream_tests.sh [repository]
set -e
REPO=${1:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d /tmp/ut.XXXXXX)
trap 'rm -rf "$D"' EXIT
cat > "$D/CMakeLists.txt" <<CM
cmake_minimum_required(VERSION 3.20)
project(ut CXX)
find_package(Threads REQUIRED)
find_package(spdlog REQUIRED)
find_package(Catch2 REQUIRED)
find_package(trompeloeil REQUIRED)
file(GLOB_RECURSE SRC $REPO/lib/src/*.cpp)
file(GLOB_RECURSE TST $REPO/lib/tests/unit/*.cpp)
add_library(m STATIC \${SRC})
target_compile_definitions(m PUBLIC ASIO_STANDALONE FMT_DEPRECATED_OSTREAM)
target_compile_options(m PUBLIC -w)
target_include_directories(m PUBLIC $REPO/lib/include $REPO/lib/src $V/standins)
target_link_libraries(m PUBLIC spdlog::spdlog Threads::Threads)
add_executable(t \${TST})
target_include_directories(t PRIVATE /opt/vp/cmake/compat $REPO/lib/tests/unit)
target_link_libraries(t m Catch2::Catch2WithMain trompeloeil::trompeloeil)
CM
cmake -S "$D" -B "$D/b" -G Ninja > "$D/log" 2>&1 || { cat "$D/log"; exit 1; }
ninja -C "$D/b" > "$D/log" 2>&1 || { tail -50 "$D/log"; exit 1; }
"$D/b/t" | tail -${TAIL:-5}
