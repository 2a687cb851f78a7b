package eng

import "testing"

func TestFatalRace(t *testing.T) {
	s := "x\npanic: sync: WaitGroup is reused before previous Wait has returned\n\ngoroutine 7 [running, synctest bubble 1]:\nsync.(*WaitGroup).Wait(0xc0)\n\t/x/y.go:5 +0x1\ngithub.com/philippseith/signalr.(*client).Stop(0xc1)\n\t/repo/client.go:5\nverif/harness/checks.run27.func1()\n\n"
	if !fatalRace(s) {
		t.Fatal("own")
	}
	if fatalRace("fatal error: concurrent map writes\n\ngoroutine 7 [running]:\ninternal/maps.x()\n\t/x\nverif/harness/checks.a()\n\t/x\ngithub.com/philippseith/signalr.(*client).Stop(0xc1)\n\n") {
		t.Fatal("foreign")
	}
}
