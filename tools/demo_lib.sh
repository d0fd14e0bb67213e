# Copied into each folder of /verif/seeded: builds demo.cpp with the stores beside it, and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
B=$(mktemp -d)
trap 'rm -rf "$B"' EXIT
PY=/opt/vp/venv/bin/python3; [ -x $PY ] || PY=python3
CXX=${CXX:-g++}
SAN=${SAN--fsanitize=address,undefined -fno-sanitize=vptr -DSTORED_ENABLE_ASAN=1 -DSTORED_ENABLE_UBSAN=1}
gen() { # gen [-b]: generates all *.st
	mkdir -p "$B/out"
	PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R/python" $PY -m libstored.generator "$@" "$D"/*.st "$B/out" >"$B/gen.log" 2>&1 || { cat "$B/gen.log"; exit 3; }
}
run() { # run [flags...]: compile and run demo.cpp
	srcs=$(ls "$B"/out/src/*.cpp 2>/dev/null)
	objs=()
	for f in "$R"/src/*.cpp $srcs "$D/demo.cpp"; do
		o="$B/$(basename "$f").o"; objs+=("$o")
		$CXX -std=c++17 -g -O0 -w $SAN -D_DEBUG=1 -DSTORED_DRAFT_API=1 -DSTORED_HAVE_HEATSHRINK=1 -DSTORED_HAVE_ZMQ=1 -DSTORED_NAME=demo "$@" -I"$D" -I"$R/include" -I"$B/out/include" -isystem /usr/include/heatshrink -c "$f" -o "$o" 2>"$o.log" &
	done
	wait
	$CXX -g $SAN "${objs[@]}" -lzmq -lheatshrink_dynalloc -lpthread -o "$B/demo" >"$B/link.log" 2>&1 || { cat "$B"/*.log | head -30; exit 3; }
	cd "$B" && timeout 250 ./demo
}
