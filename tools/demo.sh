#!/bin/bash
# Adds the test beside this script to a scratch copy of the sources in the current directory and
# runs it. Exit 0: it passes.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:${PATH:-}
export RUSTUP_TOOLCHAIN=1.70 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= INSTA_UPDATE=no
export CARGO_TARGET_DIR=$repo/target
work=$(mktemp -d /tmp/posydemo.XXXXXXXX) || exit 2
case "$work" in /tmp/posydemo.*) ;; *) exit 2;; esac
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/posy" "$work/tmp"
(cd "$repo" && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C "$work/posy"
# first line of demo.rs: "// in FILE", the module the test goes into (default src/main.rs)
into=$(sed -n '1s,^// in ,,p' "$here/demo.rs"); into=${into:-src/main.rs}
cp "$here/demo.rs" "$work/seeded_demo.rs"
printf '\n#[cfg(test)]\n#[path = "%s"]\nmod seeded_demo;\n' "$work/seeded_demo.rs" >> "$work/posy/$into"
cd "$work/posy" || exit 2
export TMPDIR=$work/tmp
out=$(timeout -k 5 280 cargo test --offline --bin posy seeded_demo -- --test-threads 1 2>&1)
rc=$?
printf '%s\n' "$out" | grep -v '^warning' | tail -n 25
[ $rc = 0 ] || exit 1
printf '%s\n' "$out" | grep -q '^test .*seeded_demo.* ok$' || exit 3
