# Sourced by check.sh and setup.sh. Builds go to /verif/build, never into /repo.
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export LANG=C.UTF-8 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFLAGS="-Awarnings"
export CARGO_TARGET_DIR="$HERE/build/target"
VENV_PY=/opt/vp/venv/bin/python
STAGE="$HERE/build/stage"
mkdir -p "$HERE/build" "$HERE/evidence" "$HERE/replays"

# Cargo decides by time stamps; the content decides here: when /repo's sources changed since the last build, drop it.
refresh() {
    local now old
    now="$(cd /repo && cat Cargo.toml python/Cargo.toml $(find src python/src python/sparseglm -type f \( -name '*.rs' -o -name '*.py' \) | LC_ALL=C sort) | sha256sum)"
    old="$(cat "$HERE/build/repo.sha" 2>/dev/null)"
    if [ "$now" != "$old" ]; then
        rm -rf "$STAGE"
        (cd "$HERE/harness" && cargo clean --offline --release -p sparseglm >/dev/null 2>&1)
        rm -rf "$HERE/build/pytarget/release/.fingerprint/"sparseglm* 2>/dev/null
        echo "$now" > "$HERE/build/repo.sha"
    fi
}
build_rust() { # names of drivers
    refresh
    local a=(); for b in "$@"; do a+=(--bin "$b"); done
    (cd "$HERE/harness" && cargo build --offline --locked --release "${a[@]}") >"$HERE/build/cargo.$1.log" 2>&1 || { grep -A7 "^error" "$HERE/build/cargo.$1.log" | head -60; return 1; }
}
build_python() {
    refresh
    [ -f "$STAGE/ok" ] && return 0
    rm -rf "$STAGE"; mkdir -p "$STAGE"
    cp -r /repo/python/sparseglm "$STAGE/sparseglm" && rm -f "$STAGE/sparseglm/"*.so
    # the extension is built from a staged copy so that /repo's own target directory and lock file are not touched
    rm -rf "$HERE/build/pysrc"; mkdir -p "$HERE/build/pysrc"
    (cd /repo && cp -r src python benches Cargo.toml "$HERE/build/pysrc/") && cp "$HERE/harness/py.lock" "$HERE/build/pysrc/Cargo.lock"
    rm -f "$HERE/build/pysrc/python/sparseglm/"*.so
    (cd "$HERE/build/pysrc" && PYO3_PYTHON=/usr/bin/python3.12 CARGO_TARGET_DIR="$HERE/build/pytarget" \
        cargo build --release --offline -p sparseglmpy --features pyo3/abi3-py37) >"$HERE/build/cargo.py.log" 2>&1 || { tail -40 "$HERE/build/cargo.py.log"; return 1; }
    cp "$HERE/build/pytarget/release/libsparseglmpy.so" "$STAGE/sparseglm/_lib.abi3.so" && touch "$STAGE/ok"
}
