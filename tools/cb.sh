. /verif/tools/env.sh
python3 /verif/tools/sync.py >/dev/null
cd /verif/harness/$1; shift
cargo build --offline "$@" 2>&1 | grep -v "^ *Compiling" | grep -v "^ *Adding"
