#!/bin/sh
# The library and the operations report each of their memory accesses (as for ThreadSanitizer, but
# to the scheduler of rt.rs)
rustc=$1
shift
case " $* " in
*" --crate-name cfg_expr "* | *" --crate-name ops "*) set -- "$@" -Zsanitizer=thread -Zexternal-clangrt ;;
esac
RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zunstable-options -Cunsafe-allow-abi-mismatch=sanitizer
