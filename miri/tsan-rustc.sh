#!/bin/sh
# The race detector does not see the inline assembler of parking_lot's lock elision: builds that crate without it.
case " $* " in
*" --crate-name parking_lot "*) exec "$@" --cfg miri ;;
*) exec "$@" ;;
esac
