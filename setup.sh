#!/bin/bash
# Nothing to prepare: every check builds the monitor it needs from /repo's current tree (Go build cache).
. /opt/vp/env.sh
go version
