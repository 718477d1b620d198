package vnd

import "time"

func quiesce() { time.Sleep(100 * time.Millisecond) }

// crashNative is installed by the native replay build, which hooks package os.
var crashNative func(at int, f func()) bool

// Crash runs f; the executor may stop it before any of its file-system
// mutations (or in the middle of a write), in which case Crash returns true.
func Crash(f func()) bool {
	k := nextInt()
	if k < 0 || crashNative == nil {
		f()
		return false
	}
	return crashNative(k, f)
}
