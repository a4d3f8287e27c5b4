#!/bin/bash
# rustc used for the *dependencies* only. The analysis driver is built against the nightly
# compiler, so the dependencies' metadata must come from it too, but
#  - build scripts that probe the channel must see a stable release, and
#  - wasm-bindgen's version probe needs a later patch level on new compilers.
# The command line of the umbrella crate ("deps") is recorded: it names every --extern.
real="$(rustup which rustc --toolchain nightly)"
case " $* " in
 *" -vV "*|*" --version "*|*" -V "*) "$real" "$@" | sed 's/-nightly//' ; exit "${PIPESTATUS[0]}";;
esac
case " $* " in
 *" --crate-name wasm_bindgen "*) export CARGO_PKG_VERSION_PATCH=99 CARGO_PKG_VERSION=0.2.99;;
 *" --crate-name deps "*) printf '%s\n' "$@" > "$CARGO_TARGET_DIR/deps.args";;
esac
exec "$real" "$@"
