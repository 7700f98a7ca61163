#!/bin/bash
# lab.sh DIR: a scratch copy of /repo and the committed /verif whose checks judge DIR/repo. Remove DIR when done.
L=$1; rm -rf "$L"; mkdir -p "$L"; cp -a /repo "$L/repo"; mkdir "$L/verif"
git -C /verif archive HEAD | tar x -C "$L/verif"; rm -rf "$L/verif/seeded"
[ -d /verif/target ] && cp -a /verif/target "$L/verif/target"
cd "$L/verif"; sed -i "s#/repo/#$L/repo/#" harness/Cargo.toml jumps/Cargo.toml; sed -i "s#/verif#$L/verif#" env.sh
grep -rl '/verif' --include=*.rs . | xargs -r sed -i "s#\"/verif#\"$L/verif#"
for n in build.sh test.sh; do sed "s#/repo#$L/repo#g; s#/opt/vp/env.sh#$L/env.sh#g" /opt/vp/$n > "$L/$n"; done
sed "s#/repo#$L/repo#g" /opt/vp/env.sh > "$L/env.sh"
