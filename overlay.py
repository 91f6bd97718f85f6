"""Makes a Cargo workspace at <verif>/build/ws whose members are symlinks to the
repository's crates and to this framework's harness crate.

/repo/src/rust/Cargo.toml itself cannot be loaded offline (one member needs
crates that are not cached), and the repository's crates inherit their
dependency versions from it, so a harness crate with an empty [workspace] of its
own could not depend on them by path.  The repository's manifest is therefore
copied on every run, with only the members that build here.
"""
import os
import re
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("FCB_REPO", "/repo") + "/src/rust"
WS = os.path.join(HERE, "build", "ws")
MEMBERS = ["cli", "fcb_core", "harness", "web"]

text = open(f"{SRC}/Cargo.toml").read()
for table in ("package", "dependencies"):
    text = re.sub(rf"(?ms)^\[{table}\].*?(?=^\[|\Z)", "", text)
text, n = re.subn(
    r"(?ms)^members\s*=\s*\[.*?\]", f"members = {MEMBERS!r}".replace("'", '"'), text
)
if n != 1:
    sys.exit("no members line in the repository's workspace manifest")
text += """
[profile.mc]
inherits = "dev"
opt-level = 2
debug = false
debug-assertions = true
overflow-checks = true
incremental = false
codegen-units = 16

[profile.mc.package."*"]
opt-level = 1
debug-assertions = false
overflow-checks = false
"""

os.makedirs(WS, exist_ok=True)
links = {
    "cli": f"{SRC}/cli",
    "fcb_core": f"{SRC}/fcb_core",
    ".cargo": f"{SRC}/.cargo",
    "harness": os.path.join(HERE, "harness"),
    "web-stubs": os.path.join(HERE, "web"),
}
for name, target in links.items():
    link = f"{WS}/{name}"
    if os.path.islink(link) and os.readlink(link) != target:
        os.unlink(link)
    if not os.path.islink(link) and os.path.exists(target):
        os.symlink(target, link)
path = f"{WS}/Cargo.toml"
if not os.path.exists(path) or open(path).read() != text:
    with open(path, "w") as out:
        out.write(text)
lock = f"{WS}/Cargo.lock"
if not os.path.exists(lock):
    shutil.copyfile(os.path.join(HERE, "Cargo.lock"), lock)

# The reader for browsers (wasm/), as a crate that builds here: its sources, taken for those of a build for browsers,
# with stand-ins (web/) for the JavaScript side.
WEB = f"{WS}/web"
os.makedirs(f"{WEB}/src", exist_ok=True)
put = {
    "Cargo.toml": """[package]
name = "fcb_web"
version = "0.1.0"
edition = "2021"
publish = false

[dependencies]
fcb_core = { workspace = true, features = ["http"] }
http-range-client = { workspace = true, default-features = false }
cjseq = { workspace = true }
bytes = { workspace = true }
byteorder = { workspace = true }
serde = { workspace = true }
serde_json = { workspace = true }
async-trait = { workspace = true }
chrono = { workspace = true }
tracing = { workspace = true }
log = { workspace = true }
gloo-net = { path = "../web-stubs/gloo-net" }
js-sys = { path = "../web-stubs/js-sys" }
wasm-bindgen = { path = "../web-stubs/wasm-bindgen" }
serde-wasm-bindgen = { path = "../web-stubs/serde-wasm-bindgen" }
console_log = { path = "../web-stubs/console_log" }
"""
}
src = f"{SRC}/wasm/src"
for name in sorted(os.listdir(src)) if os.path.isdir(src) else []:
    if name.endswith(".rs"):
        code = open(f"{src}/{name}").read()
        code = re.sub(r'#\[cfg\(target_arch\s*=\s*"wasm32"\)\]', "", code)
        code = re.sub(r'#\[cfg\(not\(target_arch\s*=\s*"wasm32"\)\)\]', "#[cfg(any())]", code)
        code = re.sub(r"(?m)^mod (\w+);", r"pub mod \1;", code)
        put[f"src/{name}"] = code.replace("#[async_trait(?Send)]", "#[async_trait]")
put.setdefault("src/lib.rs", "")
for name in os.listdir(f"{WEB}/src"):
    if f"src/{name}" not in put:
        os.unlink(f"{WEB}/src/{name}")
for name, code in put.items():
    path = f"{WEB}/{name}"
    if not os.path.exists(path) or open(path).read() != code:
        with open(path, "w") as out:
            out.write(code)
