#!/bin/bash
# femseed.sh ID: put the stand-ins beside seeded/ID/demo.py
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$1; t=$V/tools/femdemo
mkdir -p $d/simpy; cp $t/simpy/*.py $d/simpy/; cp $t/femfake.py $t/femdemo.py $t/demo.sh $d/
