#!/bin/bash
# build.sh GROUP [gcc]: builds /verif/build/sim_GROUP from /repo's current working tree; with "gcc" sim_GROUP_gcc, in which
# the code under test is compiled by gcc -O2 (the project's compiler) instead of clang -O1.
# Everything that reads /repo is rebuilt every time; only the driver core is cached (by content).
set -u
cd "$(dirname "$0")" || exit 2
S=$PWD; V=$(dirname "$S"); R=${SIM_REPO:-/repo}; G=$1 FL=${2:-clang}
B=${SIM_BUILD:-$V/build}; O=$B/$G; C=$B/core; [ "$FL" = gcc ] && O=${O}_gcc
rm -rf "$O"; mkdir -p "$O" "$C"
CC=clang; CXX=clang++
INC="-I$R -I$R/gel -I$S/include -I$S"
CONF='-DGEL_PAGEMANAGER_CONFIGURATION_HEADER="gel_conf.h" -DGEL_PARAMETER_CONFIGURATION_HEADER="gel_conf.h"'
WARN="-Wall -Wextra -Wno-unused-function -Wno-unused-parameter -Wno-sign-compare"
run() { "$@" 2>>"$O/err.log" || { echo "build failed: $*" >>"$O/err.log"; touch "$O/failed"; return 1; }; }
soft() { "$@" 2>/dev/null || true; }     # a module this variant does not need may fail to build; the link tells
check_failed() { if [ -e "$O/failed" ]; then head -c 4000 "$O/err.log" >&2; exit 2; fi; }
if [ "$G" = circ ]; then ASAN=; else ASAN="-fsanitize=address"; fi

# gcc has no pragma for it: the globals of a module go to the sections isolate.h names
own() {
    run objcopy --rename-section .bss=modbss,alloc --rename-section .data=moddata --rename-section .data.rel=moddata --rename-section .data.rel.local=moddata "$1"
}

# driver core
KEY=$(cat sim.h sim.cpp | sha256sum | cut -c1-16)${ASAN:+a}
CORE=$C/sim-$KEY.o
if [ ! -f "$CORE" ]; then run $CXX -std=c++17 -O2 -g $ASAN $WARN -c sim.cpp -o "$CORE.$$" && mv "$CORE.$$" "$CORE"; fi &

if [ "$G" = circ ]; then
    variant() { # name type opt value-of-uninitialised-variables
        local n=$1 d=$O/$1 objs= cc=$CC sim="-fsanitize-coverage=trace-pc-guard,no-prune -mllvm -tsan-instrument-func-entry-exit=0"; mkdir -p "$d"
        if [ "${5:-}" = gcc ]; then cc=gcc; sim="-fno-common -fsanitize-coverage=trace-pc --param tsan-instrument-func-entry-exit=0 -Dmemcpy=__tsan_memcpy -Dmemmove=__tsan_memmove -Dmemset=__tsan_memset"; fi
        for f in "$R"/gel/collections/*.c circ_shim.c; do
            local o="$d/$(basename "$f" .c).o"
            run $cc -std=gnu11 $3 -g -w -DGEL_CBUF_TYPE="$2" -DCIRC_VARIANT="$n" $INC -include isolate.h -fexceptions -ftrivial-auto-var-init=$4 -fsanitize=thread $sim -c "$f" -o "$o"
            [ $cc = gcc ] && own "$o"
            objs="$objs $o"
        done
        run ld -r -o "$O/$n.all.o" $objs
        run objcopy --keep-global-symbol="$n" "$O/$n.all.o" "$O/$n.o"
        rm "$O/$n.all.o"
    }
    variant circ_u8_O0 uint8_t -O0 pattern & variant circ_u8_O2 uint8_t -O2 zero & variant circ_u32_O1 uint32_t -O1 pattern &
    variant circ_u8_gcc uint8_t -O2 zero gcc &
    run $CXX -std=c++17 -O2 -g $WARN $INC -c coro.cpp -o "$O/coro.o" &
    run $CXX -std=c++17 -O2 -g $WARN $INC -c scen_circ.cpp -o "$O/scen.o" &
    wait
    check_failed
    run $CXX -o "$B/sim_$G.$$" "$O"/*.o "$CORE" || check_failed
else
    MODF="-std=gnu11 -O1 -g -w $CONF -fexceptions $ASAN -fsanitize-coverage=trace-pc-guard,no-prune -ftrivial-auto-var-init=pattern -include isolate.h \
          -Dmalloc=sim_malloc -Dcalloc=sim_calloc -Drealloc=sim_realloc -Dfree=sim_free"
    MCC=$CC
    if [ "$FL" = gcc ]; then
        MCC=gcc
        MODF="-std=gnu11 -O2 -g -w -DNDEBUG -funsigned-char $CONF -fexceptions -fno-common $ASAN -fsanitize-coverage=trace-pc -ftrivial-auto-var-init=zero \
              -Dmalloc=sim_malloc -Dcalloc=sim_calloc -Drealloc=sim_realloc -Dfree=sim_free"
    fi
    mod() { $MCC $MODF $EXTRA "$@" || return 1; if [ "$FL" = gcc ]; then own "${!#}"; fi; }
    EXTRA=
    [ -f "flags_$G" ] && EXTRA=$(cat "flags_$G")
    variant() { # symbol flags...: every module plus the shim, with only the function table visible
        local n=$1 d=$O/$1 f o pids=; shift; mkdir -p "$d"
        for f in "$R"/gel/*/*.c "shim_$G.c"; do
            case $f in */pagemanager/*) [ "$G" = page ] || continue ;; esac
            o="$d/m_$(basename "$(dirname "$f")")_$(basename "$f" .c).o"
            soft mod -DVARIANT="$n" "$@" $INC -c "$f" -o "$o" &
            pids="$pids $!"
        done
        wait $pids
        run ld -r -o "$d/all.o" "$d"/m_*.o
        run objcopy --keep-global-symbol="$n" "$d/all.o" "$O/$n.o"
    }
    if [ -f "variants_$G" ]; then
        while read -r n fl; do variant "$n" $fl & done <"variants_$G"
    else
        for f in "$R"/gel/*/*.c; do
            case $f in */pagemanager/*) [ "$G" = page ] || continue ;; esac
            o="$O/m_$(basename "$(dirname "$f")")_$(basename "$f" .c).o"
            run mod $INC -c "$f" -o "$o" &
        done
        for f in shim_"$G"*.c; do
            [ -f "$f" ] && run mod $INC -c "$f" -o "$O/$(basename "$f" .c).o" &
        done
    fi
    run $CC -O2 -c edges.c -o "$O/edges.o" &
    run $CXX -std=c++17 -O1 -g $ASAN $WARN -c simalloc.cpp -o "$O/simalloc.o" &
    run $CXX -std=c++17 -O1 -g $ASAN $WARN $CONF $EXTRA $INC -c "scen_$G.cpp" -o "$O/scen.o" &
    wait
    check_failed
    run $CXX $ASAN -o "$O.$$" "$O"/*.o "$CORE" || check_failed
    mv "$O.$$" "$B/sim_$(basename "$O")"
    exit
fi
mv "$B/sim_$G.$$" "$B/sim_$G"
