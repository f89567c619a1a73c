#!/bin/sh
# NumPure.tla is Num.tla under a name the overrides do not apply to.
sed '1s/MODULE Num /MODULE NumPure /' "$(dirname "$0")/../specs/Num.tla" > "$(dirname "$0")/../specs/NumPure.tla"
