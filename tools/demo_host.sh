# Source this after demo_gen.sh: host_demo ID   prepares seeded/ID/ (demo.sh, client.rs and the salsa stand-in) for a demo that talks to a real host
host_demo() {
demo $1 'analyzer-abstractions = { path = "$W/crates/analyzer-abstractions" }
analyzer-host = { path = "$W/crates/analyzer-host" }
async-channel = "1.7.1"
cancellation = "0.1.0"
serde_json = "1.0.83"
tracing-subscriber = "0.3.16"' '# the three crates of the server, with a stand-in for salsa, which is not available offline
mkdir -p $W/crates; cp -r "$D/salsa" "$D/salsa-macros" $W/; cp "$D/client.rs" $W/src/
for c in analyzer-abstractions analyzer-core analyzer-host; do
	mkdir -p $W/crates/$c; cp -r "$R/crates/$c/src" $W/crates/$c/
	sed -e "/^\[dev-dependencies\]/,\$d" -e "s|^salsa = .*|salsa = { path = \"../../salsa\", package = \"v-salsa\" }|" -e "s|^serde = .*|serde = { version = \"1.0.143\", features = [\"derive\"] }|" "$R/crates/$c/Cargo.toml" > $W/crates/$c/Cargo.toml
done'
sed -i 's/^\[workspace\]$/[workspace]\nmembers = ["crates\/*"]/' seeded/$1/demo.sh
cp -r shim/salsa shim/salsa-macros seeded/$1/; rm -rf /verif/seeded/$1/salsa/target; cp tools/demo/client.rs seeded/$1/
}
