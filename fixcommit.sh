#!/bin/bash
# development helper: run the stable tests on /repo and commit the working-tree change as a fix
cd /repo && git diff && out=$(bash /opt/vp/test.sh /tmp/o.json | tail -1) && echo "$out" && [ "$out" = "267 passed, 0 failed" ] && git commit -qam "$1" && git log --oneline | head -1
