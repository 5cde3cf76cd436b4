#!/bin/bash
# Builds the facts driver and records how every crate of the world workspace is compiled.
set -e
cd "$(dirname "$0")"
mkdir -p .build/facts .build/cmds evidence
SYS=$(rustc +nightly --print sysroot)
echo "$SYS" > .build/sysroot.txt
export LD_LIBRARY_PATH=$SYS/lib:$LD_LIBRARY_PATH
if [ ! -x .build/wfacts ] || [ analyzer/wfacts.rs -nt .build/wfacts ]; then
  rustc +nightly -O --edition 2021 analyzer/wfacts.rs -o .build/wfacts
fi
rm -rf /verif/.build/cmds /verif/.build/facts /verif/.build/target
mkdir -p .build/facts .build/cmds
cd world
RUSTC_WORKSPACE_WRAPPER=/verif/.build/wfacts WFACTS_OUT=/verif/.build/facts WFACTS_LOG=/verif/.build/cmds \
  CARGO_TARGET_DIR=/verif/.build/target CARGO_INCREMENTAL=0 RUSTFLAGS="-Awarnings" cargo +nightly check --offline --workspace
cd ..
python3 -c "
import sys; sys.path.insert(0,'/verif')
from wf import refresh
c=sorted(refresh.load_cmds())
refresh.mark_current(c)
print('recorded', len(c), 'crates:', ' '.join(c))
"
