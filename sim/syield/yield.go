//go:build go1.25

// Package syield is called between statements of code that runs in several goroutines, where another goroutine may run.
package syield

import (
	"reflect"

	"verif.local/sim/kern"
)

// Point is a place where the goroutine may be descheduled.
func Point(site string) {
	if p := kern.TryCurrent(); p != nil {
		p.Yield(site)
	}
}

// Map is called before an element of m is written.
func Map(m interface{}, site string) {
	p := kern.TryCurrent()
	if p == nil {
		return
	}
	if v := reflect.ValueOf(m); v.Kind() == reflect.Map {
		p.MapWrite(v.Pointer(), site)
	}
}
