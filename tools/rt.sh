#!/bin/bash
# run /repo's tests, one line out
bash /opt/vp/test.sh /tmp/rt.json > /tmp/rt.log 2>&1; tail -1 /tmp/rt.log
