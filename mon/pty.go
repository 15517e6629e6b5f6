package main

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

func ioctl(fd uintptr, req uintptr, arg unsafe.Pointer) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg))
	if e != 0 {
		return e
	}
	return nil
}

// openPty opens a pseudo terminal; the slave is opened in blocking mode, like
// a program's real standard input.
func openPty(w, h int) (master, slave *os.File, err error) {
	mfd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	var unlock int32
	if err = ioctl(uintptr(mfd), syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		syscall.Close(mfd)
		return nil, nil, err
	}
	var n uint32
	if err = ioctl(uintptr(mfd), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		syscall.Close(mfd)
		return nil, nil, err
	}
	name := fmt.Sprintf("/dev/pts/%d", n)
	sfd, err := syscall.Open(name, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		syscall.Close(mfd)
		return nil, nil, err
	}
	ws := [4]uint16{uint16(h), uint16(w), 0, 0}
	ioctl(uintptr(sfd), syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
	syscall.SetNonblock(mfd, true)
	return os.NewFile(uintptr(mfd), "ptmx"), os.NewFile(uintptr(sfd), name), nil
}

// termios of a descriptor, as a comparable value.
func termiosOf(fd uintptr) (syscall.Termios, error) {
	var t syscall.Termios
	err := ioctl(fd, syscall.TCGETS, unsafe.Pointer(&t))
	return t, err
}

func setTermios(fd uintptr, t syscall.Termios) error {
	return ioctl(fd, syscall.TCSETS, unsafe.Pointer(&t))
}

func foreground(fd uintptr) int {
	var p int32
	if ioctl(fd, syscall.TIOCGPGRP, unsafe.Pointer(&p)) != nil {
		return -1
	}
	return int(p)
}

// isCooked: canonical mode with echo and signals.
func isRaw(t syscall.Termios) bool {
	return t.Lflag&(syscall.ICANON|syscall.ECHO|syscall.ISIG) == 0
}
