#!/bin/bash
# Builds a simulation binary from /repo's current working tree.
# usage: build.sh OUTDIR SCENARIO.cpp...   ->  OUTDIR/sim
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${KORIN_REPO:-/repo}
OUT=$1; shift
mkdir -p "$OUT"
CORE=$REPO/src/korin/core
# the flags of the repository's own (debug) build
FLAGS="-std=gnu++17 -g -O0 -mavx2 -DBUILD_DEBUG -DPLATFORM_LINUX=1 -fno-pie -w"
INSTR="-fsanitize=thread --param tsan-distinguish-volatile=1 -fno-builtin"
WRAPS=""
for f in malloc calloc realloc free posix_memalign aligned_alloc malloc_usable_size memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strcpy strncpy strcat strchr strrchr strstr memalign mempcpy stpcpy strncat strdup strcasecmp strncasecmp strspn strcspn strpbrk strtok vsnprintf snprintf vsprintf sprintf vfprintf fprintf printf puts __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once sched_yield __cxa_atexit __cxa_thread_atexit; do WRAPS="$WRAPS -Wl,--wrap=$f"; done
JOBS=()
run() { "$@" & JOBS+=($!); }
OBJS=()
for f in "$HERE"/sim/runtime.cpp "$HERE"/sim/driver.cpp; do
	o=$OUT/$(basename "${f%.cpp}").o; OBJS+=("$o")
	run g++ -std=gnu++17 -g -O2 -fno-pie -fno-builtin -fno-tree-loop-distribute-patterns -w -c "$f" -o "$o"
done
for f in $(find "$CORE/private" -name '*.cpp' | sort); do
	n=$(echo "${f#$CORE/private/}" | tr '/' '_'); o=$OUT/lib_${n%.cpp}.o; OBJS+=("$o")
	run g++ $FLAGS $INSTR -I"$CORE/public" -c "$f" -o "$o"
done
# unit.cpp stands for three files of a program; then the scenario decides in which order
# the files of library and program are initialised
for f in "$@"; do
	[ "$f" = unit.cpp ] || continue
	for u in 0 1 2; do
		o=$OUT/unit_$u.o; OBJS+=("$o"); UNITS=1
		run g++ $FLAGS $INSTR -DUNIT=$u -I"$CORE/public" -c "$HERE/scen/$f" -o "$o"
	done
done
for f in "$@"; do
	[ "$f" = unit.cpp ] && continue
	o=$OUT/scen_$(basename "${f%.cpp}").o; OBJS+=("$o")
	run g++ $FLAGS $INSTR -I"$CORE/public" -c "$HERE/scen/$f" -o "$o"
done
for j in "${JOBS[@]}"; do wait "$j" || { echo "build.sh: compilation failed" >&2; exit 1; }; done
if [ -n "$UNITS" ]; then
	for o in "${OBJS[@]}"; do case $(basename "$o") in lib_*|unit_*) objcopy --rename-section .init_array=korin_init "$o";; esac; done
fi
g++ -no-pie -g "${OBJS[@]}" $WRAPS -o "$OUT/sim" -lpthread
