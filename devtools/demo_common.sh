# builds libx.a from the sources of the tree in the current directory with AddressSanitizer
set -u
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'cd /; rm -rf "$W"' EXIT
FL="-O1 -g -w -D_GNU_SOURCE -DEMV_DEBUG_ENABLED -DUSE_PCSCLITE -DHAVE_ARPA_INET_H -fsanitize=address -I$PWD/src -I$PWD/tools -I$PWD/_build/src -I/usr/include/PCSC"
export ASAN_OPTIONS=detect_leaks=1
build_lib() {
	ls src/*.c | grep -v -e iso8859_iconv -e iso8859_simple | xargs -P8 -I{} sh -c 'gcc -std=gnu11 '"$FL"' -c {} -o '"$W"'/$(basename {}).o' || exit 99
	g++ -std=c++17 $FL -c src/iso8859_boost.cpp -o $W/iso8859_boost.o || exit 99
	ar rc $W/libx.a $W/*.o || exit 99
}
run_demo() {
	build_lib
	gcc -std=gnu11 $FL -I"$D" "$D/demo.c" $W/libx.a -lboost_locale -lstdc++ -o $W/demo || exit 99
	timeout 60 $W/demo
	rc=$?
	echo "demo exit $rc"
	[ $rc -eq 0 ] || exit 1
	exit 0
}
build_codes() {
	g++ -std=c++11 $FL -c src/isocodes_lookup.cpp -o $W/isocodes_lookup.o || exit 99
	g++ -std=c++11 $FL -c src/mcc_lookup.cpp -o $W/mcc_lookup.o || exit 99
	ar rc $W/libx.a $W/isocodes_lookup.o $W/mcc_lookup.o || exit 99
}
# links demo.c with program sources, whose main becomes tool_main
build_tool() {
	build_lib
	build_codes
	for t in "$@" tools/print_helpers.c; do
		gcc -std=gnu11 $FL -Dmain=tool_main ${TOOL_DEFS:-} -c $t -o $W/t_$(basename $t).o || exit 99
	done
	gcc -std=gnu11 $FL -I"$D" "$D/demo.c" $W/t_*.o $W/libx.a -ljson-c -lboost_locale -lstdc++ -o $W/demo || exit 99
}
