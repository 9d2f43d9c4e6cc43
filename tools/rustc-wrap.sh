#!/bin/bash
# json_quote re-exports a private extern crate, which this rustc denies by default
r=$1; shift
exec "$r" "$@" -W pub_use_of_private_extern_crate
