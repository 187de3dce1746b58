. /opt/vp/env.sh; cd /verif/replay; CARGO_TARGET_DIR=/verif/build/target2 CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=2 RUSTFLAGS="-C target-cpu=x86-64-v2 --cfg plonky_verif" cargo build --offline 2>&1 | grep -E "^error|^warning: unused|-->|Finished" -A6 | head -${1:-60}
