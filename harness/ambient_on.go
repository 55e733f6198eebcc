//go:build ambient

package main

import (
	"sync"
	"sync/atomic"
	_ "unsafe"
)

// The back channel through which package os tells the go command what a test
// looks up in its surroundings.
type testlogInterface interface {
	Getenv(key string)
	Stat(file string)
	Open(file string)
	Chdir(dir string)
}

//go:linkname setTestlog internal/testlog.SetLogger
func setTestlog(testlogInterface)

type lookups struct {
	on    atomic.Bool
	mu    sync.Mutex
	asked map[string]bool
}

func (l *lookups) note(s string) {
	if l.on.Load() {
		l.mu.Lock()
		l.asked[s] = true
		l.mu.Unlock()
	}
}
func (l *lookups) Getenv(key string) { l.note("getenv " + key) }
func (l *lookups) Stat(file string)  { l.note("stat " + file) }
func (l *lookups) Open(file string)  { l.note("open " + file) }
func (l *lookups) Chdir(dir string)  { l.note("chdir " + dir) }

var seen = &lookups{asked: map[string]bool{}}

func init() { setTestlog(seen) }

// watchLookups starts, and endLookups stops, noting what is looked up.
func watchLookups() { seen.on.Store(true) }

func endLookups() []string {
	seen.on.Store(false)
	return sortedKeys(seen.asked)
}
