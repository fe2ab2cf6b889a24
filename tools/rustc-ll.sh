#!/bin/bash
# RUSTC_WRAPPER: emit LLVM IR (and no machine code) for the crate under test and the harness; skip code generation
# for core (only its metadata is needed, nothing is linked).
r="$1"; shift
case " $* " in
  *" --crate-name portable_atomic "*|*" --crate-name pa_harness "*)
    a=(); out=; ef=; name=
    while [ $# -gt 0 ]; do
      case "$1" in
        --emit=dep-info,metadata,link|--emit=dep-info,link) a+=(--emit=dep-info,metadata,llvm-ir) ;;
        --crate-name) name=$2; a+=("$1") ;;
        --out-dir) out=$2; a+=("$1") ;;
        extra-filename=*) ef=${1#extra-filename=}; a+=("$1") ;;
        *) a+=("$1") ;;
      esac
      shift
    done
    # (generic code of core is instantiated here, not referenced in a core that is not at hand)
    RUSTC_BOOTSTRAP=1 "$r" "${a[@]}" -Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp -Zshare-generics=no || exit
    : >"$out/lib$name$ef.rlib"
    exit 0 ;;
  *" --crate-name core "*|*" --crate-name compiler_builtins "*)
    exec "$r" "$@" -Zno-codegen ;;
esac
exec "$r" "$@"
