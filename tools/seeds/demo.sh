#!/bin/bash
# runs demo.py under Jython against the working directory; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 280 /usr/bin/java -Xss4m -XX:+UseSerialGC -XX:TieredStopAtLevel=1 -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar \
    -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true \
    -Dpython.path="$here:$here/stub:$PWD:/opt/vp/pyogp/site" org.python.util.jython -B "$here/demo.py"
