#!/bin/bash
# quadseed.sh ID: puts the C++ demonstration kit beside seeded/ID/demo.cpp
d=/verif/seeded/$1; mkdir -p $d/algoim
cp /verif/tools/quaddemo/demo.sh $d/; cp /verif/cppsim/algoim/*.hpp $d/algoim/; cp /verif/cppsim/quad_bzr_stub.cpp $d/
