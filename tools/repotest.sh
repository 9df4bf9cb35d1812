#!/bin/bash
# developer aid: build /repo and run its tests
mkdir -p /tmp/w
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 || { tail -20 /tmp/w/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/w/o.json >/tmp/w/t.log 2>&1; python3 -c "
import json;o=json.load(open('/tmp/w/o.json'));print('passed',len(o['passed']),'failed',o['failed'])"
