package ai

import "go/constant"

func constInt(n int64) constant.Value     { return constant.MakeInt64(n) }
func constFloat(f float64) constant.Value { return constant.MakeFloat64(f) }
