# mkf.sh NAME k=v... : writes a configuration of MCF1
n=$1; shift
declare -A v=([Tiled]=FALSE [Batch]=4 [Width]=3 [GrowSteps]='G54' [Unst]='{2}' [Lies]='{"fork"}' [MaxRuns]=3 [MaxKill]=1 [MaxTerm]=0 [MaxFault]=0 [MaxLie]=0 [MaxLoss]=0 [OldBackfill]=FALSE [OldClaim]=FALSE [OldStart]=FALSE [SaveFirst]=FALSE [NoVerify]=FALSE [Record]=FALSE [Depth]=0)
spec=Spec; live=""
for a in "$@"; do k=${a%%=*}; x=${a#*=}; if [ $k = live ]; then spec=LiveSpec; live="PROPERTY Live"; else v[$k]=$x; fi; done
{ echo "SPECIFICATION $spec"; echo CONSTANTS
for k in "${!v[@]}"; do case $k in GrowSteps) echo " $k <- ${v[$k]}";; *) echo " $k = ${v[$k]}";; esac; done | sort
[ ${v[Record]} = TRUE ] || echo "VIEW View"
echo "INVARIANTS A01ok A02ok A03ok A05ok A06ok A07ok S10ok"; [ ${v[Record]} = TRUE ] && echo "INVARIANT Emit"; echo "$live"; echo "CHECK_DEADLOCK FALSE"; } > $n.cfg
