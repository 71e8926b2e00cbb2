# dm.sh ID: demo on clean and patched
r=/tmp/seed/dm; rm -rf $r; cp -a /repo $r; (cd $r; bash /verif/seeded/$1/demo.sh; echo clean $?; git apply /verif/seeded/$1/patch.diff; bash /verif/seeded/$1/demo.sh; echo bug $?); rm -rf $r
