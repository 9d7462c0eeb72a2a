// pkg: core
// race
package core

import (
	"sync"
	"testing"
	"time"
)

func TestVerifP32Versions(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				RegisterVersionStrategy(VerStrategy{Version: g*100 + i})
				_, _ = GetVerStrategy(i)
				_, _ = GetVerStrategy(-i - 1)
				GetNextVersion(i)
			}
		}(g)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); verRMu.Lock(); verRMu.Unlock(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the version list's lock is never released")
	}
}
