#!/bin/bash
# Builds the checker from /repo's current working tree. usage: build.sh [variant]
# variants: rel (default), race (memory access callbacks), asan
set -e
export LC_ALL=C PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
V=${1:-rel}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${MC_REPO:-/repo}
OUT=${MC_OUT:-$HERE/../.build}/$V
mkdir -p "$OUT"
exec 9>"$OUT/.lock"; flock 9
case $V in
 rel)  F="-O0 -g -fno-omit-frame-pointer"; L=""; RF="";;
 race) F="-O0 -g -fno-omit-frame-pointer"; L=""; RF="-fsanitize=thread --param tsan-instrument-func-entry-exit=0 --param tsan-distinguish-volatile=0";;
 asan) F="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined"; L="-fsanitize=address,undefined"; RF="";;
 *) echo "unknown variant $V" >&2; exit 2;;
esac
INC=$(find "$REPO/monotone" -type d | sort | sed 's/^/-I/' | tr '\n' ' ')
SRCS=$(find "$REPO/monotone" -name '*.c' | sort)
# one stamp over everything the objects depend on
STAMP=$( { echo "$F $RF $L"; cat "$HERE/build.sh"; find "$REPO/monotone" -name '*.[ch]' | sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)
if [ "$(cat "$OUT/repo.stamp" 2>/dev/null)" != "$STAMP" ]; then
  rm -f "$OUT/repo.stamp"; find "$OUT" -maxdepth 1 -name 'r_*.o' -delete
  NF=0
  for s in $SRCS; do
    o="$OUT/r_$(echo "${s#$REPO/monotone/}" | tr '/' '_' | sed 's/\.c$/.o/')"
    printf '%s %s\n' "$s" "$o"
  done > "$OUT/repo.list"
  xargs -P "$(nproc)" -L 1 sh -c 'gcc -std=gnu11 '"$F $RF"' -D_GNU_SOURCE=1 -fPIC -w '"$INC"' -c "$0" -o "$1" || exit 255' < "$OUT/repo.list"
  echo "$STAMP" > "$OUT/repo.stamp"
fi
HSTAMP=$( { echo "$F $L"; sha256sum "$HERE"/*.cc "$HERE"/*.h "$HERE/build.sh" "$REPO/monotone/main/api/monotone.h"; } | sha256sum | cut -d' ' -f1)
if [ "$(cat "$OUT/h.stamp" 2>/dev/null)" != "$HSTAMP" ]; then
  rm -f "$OUT/h.stamp"
  # per-file stamps: a header change rebuilds all
  HH=$( { echo "$F"; sha256sum "$HERE"/*.h "$HERE/build.sh"; } | sha256sum | cut -d' ' -f1)
  : > "$OUT/h.list"
  for s in "$HERE"/*.cc; do
    b=$(basename "$s" .cc); k="$HH $(sha256sum < "$s")"
    if [ "$(cat "$OUT/h_$b.stamp" 2>/dev/null)" != "$k" ] || [ ! -f "$OUT/h_$b.o" ]; then
      echo "$s $OUT/h_$b.o $OUT/h_$b.stamp $(echo "$k" | tr ' ' '_')" >> "$OUT/h.list"
    fi
  done
  if [ -s "$OUT/h.list" ]; then
  xargs -P "$(nproc)" -L 1 sh -c 'rm -f "$2"; g++ -std=gnu++17 '"$F -O2"' -D_GNU_SOURCE=1 -Wall -Wno-unused-function -Wno-misleading-indentation -I'"$REPO/monotone/main/api"' -c "$0" -o "$1" && echo "$3" | sed "s/_/ /;s/_/ /g" > "$2" || exit 255' < "$OUT/h.list"
  fi
  for o in "$OUT"/h_*.o; do b=$(basename "$o" .o); [ -f "$HERE/${b#h_}.cc" ] || rm -f "$o"; done
  echo "$HSTAMP" > "$OUT/h.stamp"
  rm -f "$OUT/mc"
fi
if [ ! -x "$OUT/mc" ] || [ "$(cat "$OUT/mc.stamp" 2>/dev/null)" != "$STAMP$HSTAMP" ]; then
  W=""
  for f in open open64 openat creat close read write pread pread64 pwrite pwrite64 readv writev preadv pwritev fdatasync fsync sync_file_range \
    ftruncate ftruncate64 truncate fallocate posix_fallocate lseek lseek64 rename renameat renameat2 unlink unlinkat remove link mkdir rmdir opendir readdir readdir64 closedir \
    stat lstat fstat stat64 lstat64 fstat64 fstatat access flock fcntl mmap munmap mremap clock_gettime gettimeofday time getpid getuid \
    rand srand random rand_r getrandom sleep usleep nanosleep __assert_fail \
    pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock \
    pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock \
    pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock \
    pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast \
    pthread_create pthread_join pthread_detach pthread_setname_np sched_yield malloc calloc realloc free curl_easy_init curl_easy_cleanup curl_easy_reset curl_easy_setopt curl_easy_getinfo curl_easy_perform; do W="$W -Wl,--wrap=$f"; done
  g++ $L -rdynamic -o "$OUT/mc.tmp" "$OUT"/h_*.o "$OUT"/r_*.o $W -lm -lpthread -lcurl -lssl -lcrypto -lzstd -llz4
  mv "$OUT/mc.tmp" "$OUT/mc"; echo "$STAMP$HSTAMP" > "$OUT/mc.stamp"
fi
