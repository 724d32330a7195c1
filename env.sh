# sourced by run.sh and setup.sh
export HOME="${HOME:-/root}"
[ -d "$HOME/.cargo" ] || export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true LIBCLANG_PATH=/usr/lib/llvm-14/lib
export RUST_BACKTRACE=0 RUSTFLAGS="--cap-lints warn --cfg ursa_verif" CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$V" CARGO_TARGET_DIR="$V/target"
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
# crate -> path packages of /repo it compiles
pkgs_of() {
  case "$1" in
    ursa) echo "ursa" ;;
    alt) echo "ursa_native ursa_portable" ;;
    zmix) echo "zmix bbs bulletproofs_amcl" ;;
    share) echo "ursa_sharing" ;;
  esac
}
CRATES="ursa alt zmix share"
crate_of() {
  case "$1" in
    A0?|N01|C10) echo alt ;;
    S0?|K01|B0?|P01|T01|C0?|F01|M01) echo ursa ;;
    T02) echo share ;;
    Z*) echo zmix ;;
    *) echo "" ;;
  esac
}
# Cargo decides by modification time; decide by content as well, so that an edit never goes unseen.
src_hash() {
  (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name Cargo.toml \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
}
build_crate() {
  local c="$1" h stamp="$CARGO_TARGET_DIR/.src-$1" p
  [ -f "$V/harness/$c/Cargo.toml" ] || return 0
  h="$(src_hash)"
  if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
    for p in $(pkgs_of "$c"); do
      find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -type d -name "$p-*" -print0 2>/dev/null | xargs -0 -r rm -rf
    done
    rm -f "$stamp"
  fi
  (cd "$V/harness/$c" && cargo build --offline --locked 2>"$CARGO_TARGET_DIR/.log-$c") || { tail -40 "$CARGO_TARGET_DIR/.log-$c" >&2; return 1; }
  echo "$h" > "$stamp"
}
