#!/bin/bash
# usage: fixed.sh <property> <what failed>   record HEAD of /repo as a repair
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $2" >> /verif/known_findings.txt
