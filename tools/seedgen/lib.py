import subprocess,os,json,shutil,sys
BASE=subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD",shell=True,text=True).split()[0]
SEEDS=[]
def seed(id,prop,files,needs,breaks,demo):
    SEEDS.append(dict(id=id,prop=prop,files=files,needs=needs,breaks=breaks,demo=demo))
HEAD='''#!/bin/bash
# exit 0: the property held; nonzero: it was broken
set -u
OCT="$(pwd)/oct"
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
cd "$D" || exit 2
'''
