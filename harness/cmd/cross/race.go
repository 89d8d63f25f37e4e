package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"verifh/eng"
	rt "verifrt"
)

// Data races. Two calls run in one process of a build with Go's race detector: the first to a chosen step, then
// all of the second, then the rest of the first. The hand-over is made by system calls that the detector does not
// take for synchronisation, so that it reports every pair of conflicting accesses, of the two calls, that the code
// itself does not order - also those that do no harm in this schedule.

// raceBinary: the same harness with the race detector, next to this binary; empty if there is none that works here.
var raceBinary = func() string {
	self, err := os.Executable()
	if err != nil {
		return ""
	}
	f := strings.TrimSuffix(self, ".bin") + "-race.bin"
	if _, err := os.Stat(f); err != nil {
		return ""
	}
	return f
}()

//go:norace
func rawRead(fd int) {
	var b [1]byte
	for {
		n, _, e := syscall.Syscall(syscall.SYS_READ, uintptr(fd), uintptr(unsafe.Pointer(&b[0])), 1)
		if e == 0 && n == 1 {
			return
		}
	}
}

//go:norace
func rawWrite(fd int) {
	b := [1]byte{1}
	syscall.Syscall(syscall.SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&b[0])), 1)
}

var raceState struct {
	first     bool // the first call is running
	handed    bool
	steps, at int64
	a, b      [2]int // pipes
}

//go:norace
func raceHook() {
	r := &raceState
	if !r.first || r.handed {
		return
	}
	if r.steps++; r.steps == r.at {
		r.handed, r.first = true, false
		rawWrite(r.b[1])
		rawRead(r.a[0])
		r.first = true
	}
}

//go:norace
func raceFirst(run func()) {
	rawRead(raceState.a[0])
	raceState.first = true
	run()
	raceState.first = false
	if !raceState.handed {
		raceState.handed = true
		rawWrite(raceState.b[1])
		rawRead(raceState.a[0])
	}
}

//go:norace
func raceSecond(run func()) {
	rawRead(raceState.b[0])
	run()
	rawWrite(raceState.a[1])
}

// raceChild runs one pair: "part.first.second.step", part 0 for the operations, else a family.
func raceChild(spec string) {
	var g, a, b int
	var k int64
	fmt.Sscanf(spec, "%d.%d.%d.%d", &g, &a, &b, &k)
	os.Args = []string{"verif-harness"}
	os.Stdout = nil // printing would order the calls
	list := ops()
	if g > 0 {
		list = families(false)[g-1]
	}
	in := fresh()
	var p [3][2]int
	for i := range p {
		if syscall.Pipe(p[i][:]) != nil {
			os.Exit(5)
		}
	}
	raceState.a, raceState.b, raceState.at = p[0], p[1], k
	rt.Steps, rt.Budget, rt.Sched = 0, budget, raceHook
	call := func(o op) func() {
		return func() {
			defer func() { recover() }()
			o.run(in)
		}
	}
	runA, runB := call(list[a]), call(list[b])
	end := make(chan bool, 2)
	go func() {
		runtime.LockOSThread()
		raceFirst(runA)
		end <- true
	}()
	go func() {
		runtime.LockOSThread()
		raceSecond(runB)
		end <- true
	}()
	rawWrite(p[0][1])
	<-end
	<-end
	if dir != "" {
		os.RemoveAll(dir)
	}
}

var inRepo = regexp.MustCompile(`(?m)^  (geGoMetry/|nurbs[./])`)

func racy(g, a, b int, k int64) (string, bool) {
	c := exec.Command(raceBinary)
	c.Env = append(os.Environ(), fmt.Sprintf("VERIF_RACE=%d.%d.%d.%d", g, a, b, k), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=3")
	var e bytes.Buffer
	c.Stderr = &e
	err := c.Run()
	if err == nil {
		return "", true
	}
	s := e.String()
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 66 && strings.Contains(s, "DATA RACE") && inRepo.MatchString(s) {
		var l []string
		for _, x := range strings.Split(s, "\n") {
			if strings.Contains(x, " at 0x") || strings.HasPrefix(x, "  ") && !strings.HasPrefix(x, "   ") {
				l = append(l, strings.TrimSpace(x))
			}
		}
		if len(l) > 14 {
			l = l[:14]
		}
		return strings.Join(l, "; "), true
	}
	return "", false
}

// races: every pair of the operations (part 0), or of the calls of one part, with the second at each of the parts/parts
// of the first.
func races(parts int, fam bool) func(t *eng.T) {
	var lists [][]op
	var lens [][]int64
	works := -1
	return func(t *eng.T) {
		if works < 0 {
			works = 0
			if raceBinary != "" {
				if _, ok := racy(0, 0, 0, 1<<40); ok {
					works = 1
				}
			}
			lists = [][]op{ops()}
			if fam {
				lists = append([][]op{nil}, families(false)...)
			}
			for _, l := range lists {
				var n []int64
				for _, o := range l {
					o := o
					oc := t.Call(budget, func() { eng.Capture(func() { o.run(fresh()) }) })
					n = append(n, oc.Steps)
				}
				lens = append(lens, n)
			}
		}
		if works == 0 {
			t.Skip()
		}
		g := 0
		if fam {
			g = 1 + t.Choose(len(lists)-1)
		}
		a := t.Choose(len(lists[g]))
		b := a
		if fam {
			b = []int{a, (a + 1) % len(lists[g]), (a + len(lists[g])/2) % len(lists[g])}[t.Choose(3)]
		} else {
			b = t.Choose(len(lists[g]))
		}
		k := lens[g][a] * int64(t.Choose(parts)) / int64(parts)
		if k == 0 {
			k = 1 << 40
		}
		t.Describe(func() string {
			return fmt.Sprintf("%s and %s at the same time; the first is preempted after %d steps", lists[g][a].name, lists[g][b].name, k)
		})
		why, ok := racy(g, a, b, k)
		if !ok {
			t.Skip()
		}
		if why != "" {
			t.Fail("", "a data race: %s", why)
		}
		t.Op(2)
		t.State(g, a, b, k)
	}
}
