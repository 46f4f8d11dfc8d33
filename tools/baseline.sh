#!/bin/bash
# records the baseline (bindings, loop shapes, signatures, texts) of the functions of the units
R=$(ls -d ~/.cargo/registry/src/*/)
D="minimad=${R}minimad-0.13.1,crossterm=${R}crossterm-0.29.0,crokey=${R}crokey-1.5.1,strict=${R}strict-0.2.0"
cd /verif
mkdir -p build/bl
for u in ${*:-$(cd contracts; ls *.vrs | sed 's/.vrs//')}; do
  :
  grep -q '^fn main' contracts/$u.vrs || continue
  rm -f /verif/contracts/baseline/$u.txt
  tools/weave/target/release/weave --repo ${REPO:-/repo} --dep $D --unit contracts/$u.vrs --out build/bl/$u.rs --map build/bl/$u.json --baseline contracts/baseline/$u.txt --update-baseline
done
