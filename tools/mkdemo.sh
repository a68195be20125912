#!/bin/bash
# mkdemo.sh ID PKG: writes the standard demo.sh of a planted bug (runs TestDemo of demo_test.txt inside package PKG)
cat > "$(dirname "$0")/../seeded/$1/demo.sh" <<D
#!/bin/bash
# exit 0: behaves as stated; non-zero: broken
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
here=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d) || exit 2
trap 'rm -rf "\$t"' EXIT
printf '{"Replace":{"%s":"%s"}}' "\$PWD/$2/zz_demo_test.go" "\$here/demo_test.txt" > "\$t/o.json"
TMPDIR="\$t" go test -overlay "\$t/o.json" -vet=off -count=1 -timeout 200s -run '^TestDemo\$' "./$2"
D
