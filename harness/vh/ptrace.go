package vh

import (
	"fmt"
	"os"
	"runtime"
	"syscall"
	"time"
)

// Stop is one system-call stop of a traced helper process.
type Stop struct {
	Pid, Tid int
	Entry    bool
	Nr       int
	Args     [6]uint64
	Ret      int64 // at exit
	Killed   bool  // set by Kill

	fail  syscall.Errno
	setA2 uint64
	hasA2 bool
}

// Fail makes the call (at entry) not happen and return errno.
func (s *Stop) Fail(e syscall.Errno) { s.fail = e }

// Shorten replaces the third argument at entry.
func (s *Stop) Shorten(n uint64) { s.setA2, s.hasA2 = n, true }

// Kill ends the process at this stop.
func (s *Stop) Kill() { s.Killed = true }

// MarkFd is the descriptor helpers pass to lseek to tell the tracer something.
const MarkFd = 0x77777777

// Mark is called in a traced helper: the tracer sees an lseek on MarkFd with these two numbers.
func Mark(kind int, v int64) {
	syscall.RawSyscall(syscall.SYS_LSEEK, MarkFd, uintptr(v), uintptr(kind))
}

// Marker decodes a Mark at its entry.
func (s *Stop) Marker() (kind int, v int64, ok bool) {
	if s.Entry && s.Nr == syscall.SYS_LSEEK && s.Args[0] == MarkFd {
		return int(s.Args[2]), int64(s.Args[1]), true
	}
	return
}

type tstate struct {
	started, inCall bool
	fail            syscall.Errno
}

// Trace runs "<self> -helper args..." under ptrace and calls on at every system-call stop.
// It returns the wait status of the process.
func (c *Case) Trace(dir string, args []string, limit time.Duration, on func(s *Stop)) (syscall.WaitStatus, string, error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	self, err := os.Readlink("/proc/self/exe")
	if err != nil {
		return 0, "", err
	}
	out, err := os.CreateTemp(dir, "out")
	if err != nil {
		return 0, "", err
	}
	defer out.Close()
	null, _ := os.Open("/dev/null")
	defer null.Close()
	pid, err := syscall.ForkExec(self, append([]string{self, "-helper"}, args...), &syscall.ProcAttr{
		Dir: dir, Env: append(os.Environ(), "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=2"),
		Files: []uintptr{null.Fd(), out.Fd(), out.Fd()},
		Sys:   &syscall.SysProcAttr{Ptrace: true, Setpgid: true},
	})
	if err != nil {
		return 0, "", err
	}
	text := func() string { b, _ := os.ReadFile(out.Name()); return string(b) }
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil {
		syscall.Kill(pid, syscall.SIGKILL)
		return 0, text(), err
	}
	if !ws.Stopped() {
		return ws, text(), fmt.Errorf("helper did not stop at start: %v", ws)
	}
	const opts = syscall.PTRACE_O_TRACESYSGOOD | syscall.PTRACE_O_TRACECLONE | 0x100000 /* EXITKILL */
	if err := syscall.PtraceSetOptions(pid, opts); err != nil {
		syscall.Kill(pid, syscall.SIGKILL)
		syscall.Wait4(pid, &ws, syscall.WALL, nil)
		return 0, text(), err
	}
	th := map[int]*tstate{pid: {started: true}}
	if err := syscall.PtraceSyscall(pid, 0); err != nil {
		syscall.Kill(pid, syscall.SIGKILL)
		syscall.Wait4(pid, &ws, syscall.WALL, nil)
		return 0, text(), err
	}
	timer := time.AfterFunc(limit, func() { syscall.Kill(pid, syscall.SIGKILL) })
	defer timer.Stop()
	for {
		tid, err := syscall.Wait4(-pid, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return 0, text(), fmt.Errorf("wait: %v", err)
		}
		if ws.Exited() || ws.Signaled() {
			if tid == pid {
				// the rest of the group has gone before the leader is reported
				return ws, text(), nil
			}
			delete(th, tid)
			continue
		}
		t := th[tid]
		if t == nil {
			t = &tstate{}
			th[tid] = t
		}
		sig := 0
		switch {
		case ws.StopSignal() == syscall.SIGTRAP|0x80:
			var regs syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &regs) != nil {
				continue // killed meanwhile
			}
			t.inCall = !t.inCall
			s := &Stop{Pid: pid, Tid: tid, Entry: t.inCall, Nr: int(int64(regs.Orig_rax)),
				Args: [6]uint64{regs.Rdi, regs.Rsi, regs.Rdx, regs.R10, regs.R8, regs.R9}, Ret: int64(regs.Rax)}
			if !s.Entry && t.fail != 0 {
				regs.Rax = uint64(-int64(t.fail))
				s.Ret = -int64(t.fail)
				syscall.PtraceSetRegs(tid, &regs)
				t.fail = 0
			}
			on(s)
			if s.Killed {
				syscall.Kill(pid, syscall.SIGKILL)
				continue
			}
			if s.Entry && s.fail != 0 {
				t.fail = s.fail
				regs.Orig_rax = ^uint64(0)
				syscall.PtraceSetRegs(tid, &regs)
			} else if s.Entry && s.hasA2 {
				regs.Rdx = s.setA2
				syscall.PtraceSetRegs(tid, &regs)
			}
		case ws.TrapCause() > 0 || (int(ws)>>16) != 0: // ptrace event
		case ws.StopSignal() == syscall.SIGSTOP && !t.started:
		default:
			sig = int(ws.StopSignal())
		}
		t.started = true
		syscall.PtraceSyscall(tid, sig)
	}
}

var _ = fmt.Sprint
