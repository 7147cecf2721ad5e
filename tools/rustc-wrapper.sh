#!/bin/sh
# RUSTC_WRAPPER: switches on svm-rs-builds' own feature "_offline" for its build
# script (see the notes in BUILD.json). Every other rustc call goes through as it is.
if [ "$CARGO_PKG_NAME" = svm-rs-builds ]; then
  case " $* " in
    *" --crate-name build_script_build "*) exec "$@" --cfg 'feature="_offline"' ;;
  esac
fi
exec "$@"
