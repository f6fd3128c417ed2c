# Sourced by check.sh and setup.sh: toolchain, flags and build helpers.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE
export CARGO_TARGET_DIR="$MC_ROOT/target"
TGT=x86_64-unknown-linux-gnu
export ASAN_OPTIONS="detect_leaks=0:exitcode=66:allocator_may_return_null=1:quarantine_size_mb=16:malloc_context_size=4:handle_abort=1:detect_stack_use_after_return=0"
SEQ_FLAGS="-Zsanitizer=address --cfg level_db_mc --cfg mc_asan -Awarnings"
build_bin() { (cd "$MC_ROOT/harness" && RUSTFLAGS="$SEQ_FLAGS" cargo build -q --release --offline --target $TGT --bin "$1"); }
build_all() { (cd "$MC_ROOT/harness" && RUSTFLAGS="$SEQ_FLAGS" cargo build -q --release --offline --target $TGT --bins); }
build_plain() { (cd "$MC_ROOT/harness" && RUSTFLAGS="$SEQ_FLAGS" cargo build -q --profile plain --offline --target $TGT --bin "$1"); }
build_all_plain() { (cd "$MC_ROOT/harness" && RUSTFLAGS="$SEQ_FLAGS" cargo build -q --profile plain --offline --target $TGT --bins); }
plain_path() { echo "$CARGO_TARGET_DIR/$TGT/plain/$1"; }
has_plain() { case $1 in c23|c24|c25|c26) return 1;; esac; }
bin_path() { echo "$CARGO_TARGET_DIR/$TGT/release/$1"; }
# The concurrency checks: the same explorer with a controlled scheduler (conc/).
CONC_OUT="$MC_ROOT/target/conc/$TGT/release"
conc_cargo() { (cd "$MC_ROOT/conc" && CARGO_TARGET_DIR="$MC_ROOT/target/conc" RUSTC_WRAPPER="$MC_ROOT/conc/rustc.sh" RUSTFLAGS="--cfg level_db_mc -Awarnings" cargo build -q --release --offline --target $TGT "$@"); }
conc_bin() { conc_cargo --bin "$1"; }
is_conc() { [ -f "$MC_ROOT/conc/src/bin/$1.rs" ]; }
