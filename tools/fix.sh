#!/bin/bash
# fix.sh "property[,property]" "fix: subject" : commit what is changed in /repo as one fix and note it in known_findings.txt
set -e
cd /repo
test -z "$(gofmt -l internal)" || { gofmt -l internal; exit 1; }
go vet ./internal/tilegroup >/dev/null 2>&1 || true
bash /opt/vp/build.sh >/tmp/fixbuild.log 2>&1 || { tail -20 /tmp/fixbuild.log; exit 1; }
git commit -qam "$2"
h=$(git rev-parse --short HEAD)
IFS=,; for p in $1; do echo "fixed: property=$p $h ${2#fix: }" >> /verif/known_findings.txt; done
echo $h
