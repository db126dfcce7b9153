#!/bin/bash
# run a check verbosely, show only the instances that are not fully decided
P=$1; shift
./check.py $P -v "$@" 2>&1 | cut -c1-420 | grep -v "exh=True val=[0-9]* wall=[0-9.]*s$" | awk '{k=substr($0,1,200); gsub(/0x[0-9a-f]+/,"",k); if(!(k in s)){s[k]=1; print}}' | head -${N:-25}
