package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/pbt"
)

// C24: fab is killed while it replaces the driver.

type c24Kill struct {
	Text  int
	Fab2  bool
	Force bool
	File  string // fab is killed when something happens to this file in the directory of the driver
	Nth   int    // for the nth time
	Delay int    // this many microseconds later
}

type c24ReplacedCase struct {
	Text  int
	Fab2  bool
	Kills []c24Kill
	Runs  []c24Kill // then these, not killed
}

func c24ReplacedGen(t *rapid.T) c24ReplacedCase {
	c := c24ReplacedCase{Fab2: chance(t, 30, "fab2")}
	last := 0
	for i := pick(t, "kills", 1, 1, 1, 2); i > 0; i-- {
		k := c24Kill{Text: drawInt(t, 0, 2, "text"), Fab2: c.Fab2, File: pick(t, "file", "fab.bin", "fab.bin", "fab.bin", "hash", "fab-version.json")}
		if k.Text == last && chance(t, 70, "other") {
			k.Text = (last + 1) % 3
		}
		if chance(t, 40, "another fab") {
			k.Fab2 = !c.Fab2
		}
		k.Force = k.Text == last && k.Fab2 == c.Fab2
		k.Nth = pick(t, "nth", 1, 1, 1, 2)
		k.Delay = pick(t, "delay", 0, 0, 0, 20, 50, 100, 200)
		last = k.Text
		c.Kills = append(c.Kills, k)
	}
	for i := drawInt(t, 1, 2, "runs"); i > 0; i-- {
		r := c24Kill{Text: pick(t, "text", c.Text, c.Text, last, 2), Fab2: c.Fab2}
		if chance(t, 15, "another fab") {
			r.Fab2 = !c.Fab2
		}
		c.Runs = append(c.Runs, r)
	}
	return c
}

func c24ReplacedRun(e *pbt.Env, c c24ReplacedCase) {
	var (
		top    = filepath.Join(e.Dir, "top")
		cache  = filepath.Join(e.Dir, "cache")
		dir    = filepath.Join(cache, "q/_fab")
		driver = filepath.Join(dir, "fab.bin")
		trace  []string
	)
	driverModule(e, top)
	e.Must(os.MkdirAll(filepath.Join(e.Dir, "tmp"), 0o755))
	command := func(k c24Kill) (*exec.Cmd, *bytes.Buffer) {
		e.WriteFile("top/_fab/t.go", fmt.Sprintf("package rules\n\nimport (\n\t\"context\"\n\t\"fmt\"\n\n\t\"github.com/bobg/fab\"\n)\n\nvar T = fab.F(func(context.Context, *fab.Controller) error { fmt.Println(\"text %d\"); return nil })\n", k.Text))
		bin := pbt.FabBin()
		if k.Fab2 {
			bin = os.Getenv("VERIF_FAB2")
		}
		args := []string{"-fab", cache}
		if k.Force {
			args = append(args, "-f")
		}
		cmd := exec.Command(bin, append(args, "T")...)
		cmd.Dir = top
		cmd.Env = append(os.Environ(), "TMPDIR="+filepath.Join(e.Dir, "tmp"))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		return cmd, &out
	}
	var (
		old  os.FileInfo // the driver
		made = -1        // the fab command that made it
	)
	note := func(k c24Kill) bool {
		info, err := os.Stat(driver)
		if err != nil || old != nil && os.SameFile(info, old) && info.ModTime() == old.ModTime() {
			return false
		}
		old, made = info, 0
		if k.Fab2 {
			made = 1
		}
		return true
	}
	run := func(k c24Kill) {
		trace = append(trace, fmt.Sprintf("run %+v", k))
		cmd, out := command(k)
		err := cmd.Run()
		if got, want := out.String(), fmt.Sprintf("text %d\n", k.Text); err != nil || got != want {
			e.Fatalf("%s\nfab T printed %q, but the present code prints %q (%v)", strings.Join(trace, "\n"), got, want, err)
		}
		if fresh := note(k); !fresh && (made == 1) != k.Fab2 {
			e.Fatalf("%s\nthe driver of another fab command was used", strings.Join(trace, "\n"))
		}
	}
	run(c24Kill{Text: c.Text, Fab2: c.Fab2})
	replaced := false
	for _, k := range c.Kills {
		trace = append(trace, fmt.Sprintf("run %+v, killed", k))
		fd, err := syscall.InotifyInit1(syscall.IN_CLOEXEC | syscall.IN_NONBLOCK)
		e.Must(err)
		_, err = syscall.InotifyAddWatch(fd, dir, syscall.IN_MOVED_TO|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MODIFY)
		e.Must(err)
		cmd, _ := command(k)
		e.Must(cmd.Start())
		ended := make(chan struct{})
		go func() {
			cmd.Wait()
			close(ended)
		}()
		var (
			buf  [4096]byte
			seen = 0
			hit  = false
		)
	watch:
		for !hit {
			n, err := syscall.Read(fd, buf[:])
			if err != nil || n <= 0 {
				select {
				case <-ended:
					break watch
				case <-time.After(20 * time.Microsecond):
				}
				continue
			}
			for i := 0; i+syscall.SizeofInotifyEvent <= n; {
				l := int(uint32(buf[i+12]) | uint32(buf[i+13])<<8 | uint32(buf[i+14])<<16 | uint32(buf[i+15])<<24)
				name := strings.TrimRight(string(buf[i+syscall.SizeofInotifyEvent:i+syscall.SizeofInotifyEvent+l]), "\x00")
				i += syscall.SizeofInotifyEvent + l
				if name == k.File {
					seen++
				}
			}
			if seen >= k.Nth {
				if k.Delay > 0 {
					time.Sleep(time.Duration(k.Delay) * time.Microsecond)
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				hit = true
			}
		}
		<-ended
		syscall.Close(fd)
		e.LabelIf(hit, "killed at "+k.File)
		if note(k) {
			replaced = true
			_, err := os.Stat(filepath.Join(dir, "hash"))
			e.LabelIf(hit && err != nil, "killed between driver and hash")
		}
	}
	for _, k := range c.Runs {
		run(k)
	}
	if replaced {
		e.NonTrivial()
	}
}
