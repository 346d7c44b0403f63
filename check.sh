#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the property's simulator from /repo's working tree and searches.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: error of the check.
cd "$(dirname "$0")" || exit 2
P=$1; T=${2:-${VERIF_TIER:-quick}}; S=${VERIF_SEED:-1}
case $P in
    C0*) G=circ ;;
    Q0*) G=coll ;;
    W0*|E0*) G=store ;;
    T03) G=tick ;;
    T0*) G=time ;;
    M0*) G=page ;;
    D0*) G=data ;;
    B0*|K0*) G=input ;;
    S0*) G=sched ;;
    P0*) G=param ;;
    L0*) G=link ;;
    R0*) G=pid ;;
    *) echo "unknown property $P" >&2; exit 2 ;;
esac
mkdir -p build evidence replays
exec 9>"build/lock_$G"; flock 9
# circ carries its gcc build inside; the others get a second binary with the code under test built by gcc -O2
SECOND=; [ $G != circ ] && SECOND=1
if [ -n "$SECOND" ]; then bash sim/build.sh $G gcc & PID=$!; fi
bash sim/build.sh $G || { echo "build failed" >&2; exit 2; }
if [ -n "$SECOND" ]; then wait $PID || { echo "build with gcc failed" >&2; exit 2; }; fi
cp "build/sim_$G" "build/run_$P.$$"
[ -n "$SECOND" ] && cp "build/sim_${G}_gcc" "build/run2_$P.$$"
flock -u 9; exec 9>&-
trap 'rm -f "build/run_$P.$$" "build/run2_$P.$$"' EXIT
ARGS="--tier $T --seed $S --evidence evidence/$P.json --replays replays --known known_findings.txt --jobs ${SIM_JOBS:-8} ${SIM_ARGS:-}"
"./build/run_$P.$$" "$P" $ARGS --binary "sim_$G" || exit
if [ -n "$SECOND" ]; then
    "./build/run2_$P.$$" "$P" $ARGS --seed $((S + 1000003)) --binary "sim_${G}_gcc" --divide 5 --append "evidence/$P.json" || exit
fi
