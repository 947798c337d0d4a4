// Package vruntime replaces the scheduling functions of package runtime in instrumented code.
package vruntime

import "github.com/chenquan/go-pkg/zverif/vrt"

var Gosched = vrt.Gosched
