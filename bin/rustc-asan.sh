#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: compile the rumpy crate (not its dependencies) with AddressSanitizer
rustc=$1; shift
case " $* " in
*" --crate-name rumpy "*) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=address -Zexternal-clangrt ;;
esac
exec "$rustc" "$@"
