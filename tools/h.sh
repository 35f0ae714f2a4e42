#!/bin/bash
# h.sh HARNESS CONFIG SECONDS: builds and runs one conformance harness by hand
cd /verif/vc && python3-vt -c "
import runner,subprocess,sys
b=runner.build_native('$2','$1')
p=subprocess.run([b,'--time','$3','--seed','${4:-1}','--out','/tmp/w/h.out'],capture_output=True,text=True)
print(p.stdout[-3000:],p.stderr[:1800],p.returncode)"
