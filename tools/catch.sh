# catch.sh PATCH PROP... : run the checks on a clone with the patch
id=$(basename $(dirname $1)); rm -rf /tmp/wt/c-$id; git clone -q /repo /tmp/wt/c-$id && git -C /tmp/wt/c-$id apply $1 || exit 9
shift; for p in $*; do VERIF_REPO=/tmp/wt/c-$id timeout 900 python3 /verif/run.py $p > /tmp/catch.$id.$p; echo "$id $p rc=$? $(grep -o 'failed after.*' /tmp/catch.$id.$p | head -1| cut -c1-200)"; done; rm -rf /tmp/wt/c-$id
