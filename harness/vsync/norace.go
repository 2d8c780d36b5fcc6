//go:build !race

package vsync

func raceDisable() {}
func raceEnable()  {}

func raceAcquire(s *state)      {}
func raceRelease(s *state)      {}
func raceAcquireB(b *byte)      {}
func raceReleaseB(b *byte)      {}
func raceReleaseMergeB(b *byte) {}
