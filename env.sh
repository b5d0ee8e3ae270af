N=$(rustc +nightly --print sysroot)
export RUSTC=$N/bin/rustc LD_LIBRARY_PATH=$N/lib RUSTUP_TOOLCHAIN=1.82 CARGO_NET_OFFLINE=true
export RUSTFLAGS=-Awarnings
export RUSTC_WORKSPACE_WRAPPER=/verif/driver/target/release/vdriver
export VFACTS_DIR=/verif/.facts CARGO_TARGET_DIR=/verif/.target CARGO_TERM_COLOR=never
