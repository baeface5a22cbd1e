#!/bin/bash
# oldrev.sh REV ID...: runs quick checks of this tree against an older revision of /repo (scratch copies)
r=$1; shift; w=/tmp/wt_old_$$; v=/tmp/vf_old_$$
cp -a /repo $w && git -C $w checkout -q $r || exit 1
mkdir $v && cp -a /verif/hkmon /verif/run.sh /verif/KNOWN_FINDINGS.txt $v/
for p in "$@"; do
  unshare -m bash -c "mount --bind $w /repo && mount --bind $v /verif && cd /verif && bash run.sh $p quick" 2>&1 | tail -${TAIL:-4}
done
rm -rf $w $v
