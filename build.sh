#!/bin/bash
# Build the harness (and with it /repo's crates, hooks on). Sourced by check.sh; also the setup command.
# With VMC_ONLY=<property>: if the whole harness does not build, build that property's part alone.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${CARGO_HOME:-/root/.cargo}/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= LANG=C.UTF-8
export RUSTFLAGS="--cfg vmc --check-cfg=cfg(vmc)"
(
  flock 9
  cd /verif/mc || exit 1
  # The sources' content decides freshness, not their timestamps: a changed tree is always rebuilt.
  sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum 2>/dev/null | sha256sum)
  if [ "$sum" != "$(cat /verif/target/.repo-sum 2>/dev/null)" ]; then
    for c in doge-shell dsh-builtin dsh-types dsh-frecency dsh-openai; do
      for d in /verif/target/debug/.fingerprint/$c-*; do [ -d "$d" ] && rm -rf "$d"; done
    done
  fi
  log=/verif/target/build.log; mkdir -p /verif/target
  if ! cargo build --offline --locked --target-dir /verif/target >"$log" 2>&1; then
    f=$(echo "${VMC_ONLY:-}" | tr A-Z a-z)
    if [ -z "$f" ] || ! cargo build --offline --locked --no-default-features --features "$f" --target-dir /verif/target >"$log.$f" 2>&1; then
      tail -60 "$log" >&2
      exit 1
    fi
  fi
  echo "$sum" > /verif/target/.repo-sum
) 9>/verif/.build.lock
