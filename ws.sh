# Sourced after env.sh: builds the repository's two programs from its working tree, in a
# workspace of symlinks to the members that do not need dependencies missing here.
build_programs() {
  local ws=$VERIF_ROOT/target/ws
  mkdir -p "$ws/apps" || return 1
  ln -sfn /repo/protocol "$ws/protocol"
  ln -sfn /repo/apps/bin-prot-layout-reader "$ws/apps/bin-prot-layout-reader"
  cp /repo/apps/Cargo.lock "$ws/Cargo.lock" || return 1
  python3 - "$ws/Cargo.toml" <<'PY' || return 1
import re, sys
members = ["protocol/bin-prot", "protocol/bin_prot_checker", "protocol/serialization-types-macros", "protocol/versioned", "apps/bin-prot-layout-reader"]
text = open("/repo/Cargo.toml").read()
text, n = re.subn(r"^members\s*=\s*\[[^\]]*\]", "members = [" + ", ".join(f'"{m}"' for m in members) + "]", text, count=1, flags=re.M)
if n != 1:
    raise SystemExit("no members list in /repo/Cargo.toml")
open(sys.argv[1], "w").write(text)
PY
  (cd "$ws" && cargo build --offline -q -p bin-prot-layout-reader -p bin_prot_checker)
}
export MC_BIN_DIR=$VERIF_ROOT/target/debug
