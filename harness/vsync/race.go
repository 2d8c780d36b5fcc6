//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceAcquire(s *state)      { runtime.RaceAcquire(unsafe.Pointer(s)) }
func raceRelease(s *state)      { runtime.RaceRelease(unsafe.Pointer(s)) }
func raceAcquireB(b *byte)      { runtime.RaceAcquire(unsafe.Pointer(b)) }
func raceReleaseB(b *byte)      { runtime.RaceRelease(unsafe.Pointer(b)) }
func raceReleaseMergeB(b *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(b)) }
