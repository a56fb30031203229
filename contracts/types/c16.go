package types

// C16: total, order-consistent partition of keys into shards and index channels.

func contract_GetShardID(bz []byte) {
	r := GetShardID(bz)
	vcEnsures("in range", 0 <= r && r < ShardCount)
	if len(bz) == 8 {
		vcEnsures("equal partitions", r == int(bz[7])/32)
	} else {
		vcEnsures("guards go to shard 0", r == 0)
	}
}

func contract_GetIndexChanID(b byte) {
	r := GetIndexChanID(b)
	vcEnsures("in range", 0 <= r && r < IndexChanCount)
	if b < 64 {
		vcEnsures("low standby", r == 0)
	}
	if b >= 192 {
		vcEnsures("high standby", r == 9)
	}
	if b >= 64 && b < 192 {
		vcEnsures("eight equal channels", r == 1+(int(b)-64)/16)
	}
}

func contract_LimitRange(b byte) {
	r := LimitRange(b)
	vcEnsures("strictly between guards", 64 <= r && r < 192)
	vcEnsures("keeps low seven bits", r&63 == b&63 && (r-64)&127 == b&127)
}

func lemma_GetShardID_monotone(a, b []byte) {
	vcRequires(len(a) == 8 && len(b) == 8)
	vcRequires(a[7] <= b[7])
	vcAssert("monotone", GetShardID(a) <= GetShardID(b))
}

func lemma_GetIndexChanID_monotone(a, b byte) {
	vcRequires(a <= b)
	vcAssert("monotone", GetIndexChanID(a) <= GetIndexChanID(b))
}

func lemma_LimitRange_injective(a, b byte) {
	vcRequires(a%128 != b%128)
	vcAssert("distinct", LimitRange(a) != LimitRange(b))
}
