package pbt

import (
	"fmt"
	"os"
	"runtime"
	"syscall"
	"unsafe"
)

const (
	sysLandlockCreate   = 444
	sysLandlockAddRule  = 445
	sysLandlockRestrict = 446

	llExecute    = 1 << 0
	llWriteFile  = 1 << 1
	llReadFile   = 1 << 2
	llReadDir    = 1 << 3
	llRemoveDir  = 1 << 4
	llRemoveFile = 1 << 5
	llMakeChar   = 1 << 6
	llMakeDir    = 1 << 7
	llMakeReg    = 1 << 8
	llMakeSock   = 1 << 9
	llMakeFifo   = 1 << 10
	llMakeBlock  = 1 << 11
	llMakeSym    = 1 << 12
	llRefer      = 1 << 13
	llTruncate   = 1 << 14

	llFSWrite = llWriteFile | llRemoveDir | llRemoveFile | llMakeChar | llMakeDir | llMakeReg | llMakeSock | llMakeFifo | llMakeBlock | llMakeSym

	scopeSignal = 1 << 1
)

// Sandbox restricts writing to the given directories (by means of Landlock) and then executes argv.
// Code under test deletes and overwrites files, and what keeps it within bounds is itself under test.
func Sandbox(writable []string, argv []string) error {
	runtime.LockOSThread()
	abi, _, errno := syscall.Syscall(sysLandlockCreate, 0, 0, 1)
	if errno != 0 {
		fmt.Fprintln(os.Stderr, "vrun: Landlock is not available:", errno)
		return syscall.Exec(argv[0], argv, os.Environ())
	}
	access := uint64(llFSWrite)
	if abi >= 2 {
		access |= llRefer
	}
	if abi >= 3 {
		access |= llTruncate
	}
	attr := struct{ fs, net, scoped uint64 }{fs: access}
	size := uintptr(8)
	if abi >= 4 {
		size = 16
	}
	if abi >= 6 {
		attr.scoped = scopeSignal
		size = 24
	}
	fd, _, errno := syscall.Syscall(sysLandlockCreate, uintptr(unsafe.Pointer(&attr)), size, 0)
	if errno != 0 {
		return fmt.Errorf("landlock_create_ruleset: %w", errno)
	}
	for _, dir := range append([]string{"/dev"}, writable...) {
		pfd, err := syscall.Open(dir, 0x200000|syscall.O_CLOEXEC, 0) // O_PATH
		if err != nil {
			continue
		}
		rule := struct {
			access uint64
			fd     int32
		}{access, int32(pfd)}
		_, _, errno = syscall.Syscall6(sysLandlockAddRule, fd, 1, uintptr(unsafe.Pointer(&rule)), 0, 0, 0)
		if errno != 0 {
			return fmt.Errorf("landlock_add_rule %s: %w", dir, errno)
		}
		syscall.Close(pfd)
	}
	if _, _, errno = syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); errno != 0 {
		return fmt.Errorf("prctl(PR_SET_NO_NEW_PRIVS): %w", errno)
	}
	if _, _, errno = syscall.RawSyscall(sysLandlockRestrict, fd, 0, 0); errno != 0 {
		return fmt.Errorf("landlock_restrict_self: %w", errno)
	}
	return syscall.Exec(argv[0], argv, os.Environ())
}
