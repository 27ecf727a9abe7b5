#!/bin/bash
# Builds demo.c together with the library sources of the current directory and runs it (exit 0: behaviour as documented).
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'wineserver -k >/dev/null 2>&1; rm -rf "$T"' EXIT
x86_64-w64-mingw32-gcc-win32 -O1 -w -DHAVE_CONFIG_H -DMINGW_HAS_SECURE_API -DPTW32_ARCHAMD64 -DPTW32_BUILD_INLINED -DPTW32_STATIC_LIB -DPTW32_CLEANUP_C -I"$PWD" "$D/demo.c" -o "$T/demo.exe" || exit 99
export HOME=/root WINEARCH=win64 WINEDEBUG=-all WINEDLLOVERRIDES="mscoree,mshtml,winemenubuilder.exe,winedbg.exe="
export WINEPREFIX=/opt/vp/wineprefix; [ -f "$WINEPREFIX/system.reg" ] && [ -w "$WINEPREFIX/system.reg" ] || { export WINEPREFIX=$T/wp; timeout 200 wineboot -i >/dev/null 2>&1; }
cd "$T" && timeout 90 wine demo.exe; exit $?
