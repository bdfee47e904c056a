#!/bin/bash
# dq.sh prop func: keep the queries of dropped invariants and failures in /tmp/dq
rm -rf /tmp/dq; mkdir -p /tmp/dq; cd /verif
P=""; [ "$1" != - ] && P="-prop $1"
f=$2; case $f in .*) f="xpdf.(*table)$f";; @*) f="xpdf.(*Processor).${f#@}";; esac
timeout 900 ${GOVC:-${GOVC:-bin/govc}} -v -dump /tmp/dq -repo /repo -specs contracts $P -func "$f" >/tmp/o.txt 2>&1
grep "^  dropped" /tmp/o.txt | grep spec | cut -c1-${W:-120}; grep "failed\|discharged" /tmp/o.txt | cut -c1-200
grep -H "^;" /tmp/dq/drop* 2>/dev/null| cut -c1-100
