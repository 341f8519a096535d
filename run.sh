#!/bin/sh
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset CPLUS_INCLUDE_PATH CXXFLAGS CFLAGS LDFLAGS
exec /usr/bin/python3 "$(dirname "$0")/run.py" "$@"
