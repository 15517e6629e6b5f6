package main

import (
	"flag"
	"io"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// The standard library offers a controlled clock only to tests, so this
// process hosts one test that runs for as long as the process does.

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

type noDeps struct{}

func (noDeps) ImportPath() string                          { return "" }
func (noDeps) ModulePath() string                          { return "" }
func (noDeps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (noDeps) SetPanicOnExit0(bool)                        {}
func (noDeps) StartCPUProfile(io.Writer) error             { return nil }
func (noDeps) StopCPUProfile()                             {}
func (noDeps) StartTestLog(io.Writer)                      {}
func (noDeps) StopTestLog() error                          { return nil }
func (noDeps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (noDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return nil
}
func (noDeps) RunFuzzWorker(func(corpusEntry) error) error              { return nil }
func (noDeps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) { return nil, nil }
func (noDeps) CheckCorpus([]any, []reflect.Type) error                  { return nil }
func (noDeps) ResetCoverage()                                           {}
func (noDeps) SnapshotCoverage()                                        {}
func (noDeps) InitRuntimeCoverage() (string, func(string, string) (string, error), func() float64) {
	return "", nil, nil
}

var (
	bubbleInit sync.Once
	bubbleJobs = make(chan func(*testing.T))
)

// inBubble runs f under a clock that only moves when everybody sleeps.
func inBubble(f func()) {
	bubbleInit.Do(func() {
		if !flag.Parsed() {
			flag.CommandLine.Parse(nil)
		}
		m := testing.MainStart(noDeps{}, []testing.InternalTest{{Name: "bubble", F: func(t *testing.T) {
			for job := range bubbleJobs {
				job(t)
			}
		}}}, nil, nil, nil)
		go m.Run()
	})
	var p any
	done := make(chan bool)
	bubbleJobs <- func(t *testing.T) {
		defer close(done)
		synctest.Test(t, func(*testing.T) {
			defer func() { p = recover() }()
			f()
		})
	}
	<-done
	if p != nil {
		panic(p)
	}
}
