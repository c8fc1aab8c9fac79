#!/bin/bash
# Re-copies the reviewed sources of /repo into the reference model. Run by hand after a reviewed change, never by a check.
set -e
cd /repo
for f in $(git ls-files dessia_common | grep 'py$'); do mkdir -p /verif/model/$(dirname $f); cp $f /verif/model/$f; done
