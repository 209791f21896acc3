// Package slog stands in for the global logger of package log. Messages are
// always formatted, as that runs code under test, but only kept for traces.
package slog

import (
	"fmt"
	"io"

	"github.com/jart/gosip/zsim/rt"
)

func out(s string) {
	if rt.Killing() {
		return
	}
	rt.Stat("log.lines")
	if rt.S.Verbose {
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		rt.S.Trace = append(rt.S.Trace, fmt.Sprintf("%13.6fms log    %q", float64(rt.Now())/1e6, s))
	}
}

func Printf(f string, a ...any) { out(fmt.Sprintf(f, a...)) }
func Println(a ...any)          { out(fmt.Sprintln(a...)) }
func Print(a ...any)            { out(fmt.Sprint(a...)) }
func Fatalf(f string, a ...any) { panic("log.Fatal: " + fmt.Sprintf(f, a...)) }
func Fatal(a ...any)            { panic("log.Fatal: " + fmt.Sprint(a...)) }
func Fatalln(a ...any)          { panic("log.Fatal: " + fmt.Sprintln(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicln(a ...any)          { panic(fmt.Sprintln(a...)) }
func SetFlags(int)              {}
func SetPrefix(string)          {}
func SetOutput(io.Writer)       {}
func Output(d int, s string) error {
	out(s)
	return nil
}
