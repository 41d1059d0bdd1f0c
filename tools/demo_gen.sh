# Source this: demo ID "dependency lines" "commands that prepare $W"   writes seeded/ID/demo.sh
demo() {
mkdir -p /verif/seeded/$1
cat > /verif/seeded/$1/demo.sh <<E
#!/bin/bash
# Builds a small program against the sources in the current directory (the repository) and runs it.
D=\$(cd "\$(dirname "\$0")" && pwd); R=\$(pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings RUSTC_WRAPPER=
W=/tmp/seed-demo-$1
rm -rf /tmp/seed-demo-$1; mkdir -p \$W/src; trap 'rm -rf /tmp/seed-demo-$1' EXIT
export CARGO_TARGET_DIR=\$W/target
$3
cat > \$W/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
$2
T
cp "\$R/Cargo.lock" \$W/Cargo.lock
sed "s|@R@|\$R|" "\$D/main.rs" > \$W/src/main.rs
cd \$W && timeout 280 cargo run -q --offline
E
}
