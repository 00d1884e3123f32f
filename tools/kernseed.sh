#!/bin/bash
# kernseed.sh ID: puts the kernel demonstration kit beside seeded/ID/demo.py
d=/verif/seeded/$1; mkdir -p $d/scenarios
cp /verif/tools/kerndemo/{kerndemo.py,demo.sh} $d/; cp /verif/tools/kerndemo/cpprun.py /verif/scenarios/{kernel,ffcxfake}.py $d/scenarios/
