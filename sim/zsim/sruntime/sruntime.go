// Package sruntime stands in for the scheduling functions of package runtime.
package sruntime

import "github.com/jart/gosip/zsim/rt"

func Gosched() { rt.Yield() }
