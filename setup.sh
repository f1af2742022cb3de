#!/bin/bash
# builds the extractor and the concrete-search binaries (offline); every check rebuilds what changed since
cd "$(dirname "$0")" || exit 1
export PATH=/opt/vp/skip-dashboard:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
(cd tools/extract && cargo build --release --offline -q) || exit 1
mkdir -p /repo/dashboard/dist
(cd harness && cargo build --offline --bins --keep-going 2>&1 | grep -E "^error|Finished" ; true)
python3 - <<'P'
import sys; sys.path.insert(0,'tools')
import check,os
open(os.path.join(check.HT,'nexo.sha'),'w').write(check.tree_hash())
P
exit 0
