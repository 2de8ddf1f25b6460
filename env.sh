# shared by setup.sh and run*.sh
export HOME=/root PATH=/usr/local/bin:$PATH
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
# cargo judges freshness by mtime; a content stamp of /repo/src makes rebuilds certain even if mtimes lie
sync_target() {
  mkdir -p target evidence replay
  local h; h=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  if [ "$(cat target/.repo-stamp 2>/dev/null)" != "$h" ]; then
    find "$PWD/target" -maxdepth 6 -type d -path '*/.fingerprint/rustica-*' -prune -exec rm -rf {} +
    rm -f "$PWD/target/.repo-stamp"
    echo "$h" > target/.repo-stamp
  fi
}
# finish <rc>: map the worker's ending; a worker killed by a fault inside library code is a violation
finish() {
  case "$1" in
    0|1|2) exit "$1" ;;
    132|134|135|136|139)
      mkdir -p replay; local p="$PWD/replay/$ID-crash.txt"
      echo "worker for $ID died with status $1 (seed $VERIF_SEED, tier $VERIF_TIER); rerun: cd /verif && VERIF_SEED=$VERIF_SEED bash run.sh $ID $VERIF_TIER" > "$p"
      echo "VIOLATION property=$ID replay=$p"; exit 1 ;;
    124|137) echo "ERROR timeout or killed ($1): inconclusive"; exit 2 ;;
    *) echo "ERROR worker ended with $1"; exit 2 ;;
  esac
}
