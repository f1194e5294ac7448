#!/bin/bash
# check.sh PROPERTY [quick|thorough] [engine options]: builds from /repo's working tree and runs the parts of one property.
cd "$(dirname "$0")" || exit 2
P=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
case $P in
 C0[1-5]|C35) G=roundtrip;; C0[6-9]) G=spelling;; C1[01]) G=robust;; C1[23]|C33) G=json;;
 C1[45678]|C22|C23) G=misc;; C19|C2[01789]|C30) G=cli;; C2[456]) G=ixml;; C3[124]) G=print;; *) echo "unknown property $P"; exit 2;;
esac
bash harness/build.sh $G > build.log.$$ 2>&1 || { cat build.log.$$; rm -f build.log.$$; echo "build failed"; exit 2; }
rm -f build.log.$$
export ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:malloc_fill_byte=85:max_malloc_fill_size=65536:detect_stack_use_after_return=0
export UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1 LC_ALL=C.UTF-8
exec build/h_$G --prop $P --tier $TIER --seed ${VERIF_SEED:-1} --verif "$PWD" --cli "$PWD/build/xmq" "$@"
