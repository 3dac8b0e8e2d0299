// Package vtest runs functions as tests.
package vtest

import (
	"io"
	"os"
	"reflect"
	"sync"
	"testing"
	"time"

	"verif/harness/vsym"
)

var once sync.Once

// Run runs f as a test, and reports whether it failed. The messages are
// dropped, and f must not use vsym.
func Run(f func(t *testing.T)) (failed bool) {
	if vsym.Symbolic() {
		t := &testing.T{}
		done := make(chan bool)
		go func() {
			defer close(done)
			f(t)
		}()
		<-done
		return t.Failed()
	}
	out, args := os.Stdout, os.Args
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Args = os.Args[:1]
	defer func() {
		os.Stdout.Close()
		os.Stdout, os.Args = out, args
	}()
	all := func(string, string) (bool, error) { return true, nil }
	once.Do(func() { testing.MainStart(deps{}, nil, nil, nil, nil).Run() }) // reads the flags
	return !testing.RunTests(all, []testing.InternalTest{{Name: "T", F: f}})
}

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

type deps struct{}

func (deps) ImportPath() string                          { return "" }
func (deps) ModulePath() string                          { return "" }
func (deps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (deps) SetPanicOnExit0(bool)                        {}
func (deps) StartCPUProfile(io.Writer) error             { return nil }
func (deps) StopCPUProfile()                             {}
func (deps) StartTestLog(io.Writer)                      {}
func (deps) StopTestLog() error                          { return nil }
func (deps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (deps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return nil
}
func (deps) RunFuzzWorker(func(corpusEntry) error) error              { return nil }
func (deps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) { return nil, nil }
func (deps) CheckCorpus([]any, []reflect.Type) error                  { return nil }
func (deps) ResetCoverage()                                           {}
func (deps) SnapshotCoverage()                                        {}
func (deps) InitRuntimeCoverage() (mode string, tearDown func(coverprofile string, gocoverdir string) (string, error), snapcov func() float64) {
	return
}
