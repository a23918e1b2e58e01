//go:build verifmap

package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	_ "unsafe"
)

// The runtime this driver is linked with (see overlay.go of the orchestrator)
// asks these variables where each iteration over a map begins.

//go:linkname mapActive internal/runtime/maps.verifActive
var mapActive bool

//go:linkname mapN internal/runtime/maps.verifN
var mapN int

//go:linkname mapUsed internal/runtime/maps.verifUsed
var mapUsed [1 << 16]uint32

//go:linkname mapAt internal/runtime/maps.verifAt
var mapAt [4]int

//go:linkname mapOff internal/runtime/maps.verifOff
var mapOff [4]uint64

//go:linkname mapAll internal/runtime/maps.verifAll
var mapAll uint64

// The same holds for the system calls that touch files.

//go:linkname faultOn syscall.verifOn
var faultOn bool

//go:linkname faultAt syscall.verifAt
var faultAt int

//go:linkname faultMode syscall.verifMode
var faultMode int

//go:linkname faultKeep syscall.verifKeep
var faultKeep int

//go:linkname faultN syscall.verifN
var faultN int

//go:linkname faultLog syscall.verifLog
var faultLog [1 << 18]byte

//go:linkname faultLen syscall.verifLen
var faultLen [1 << 18]int32

// faultInit reads "CALL:MODE:KEEP".
func faultInit() {
	faultAt = -1
	p := strings.Split(os.Getenv("VERIF_FAULT"), ":")
	if len(p) == 3 {
		faultAt, _ = strconv.Atoi(p[0])
		faultMode, _ = strconv.Atoi(p[1])
		faultKeep, _ = strconv.Atoi(p[2])
	}
}

func faultReport() {
	n := faultN
	if n > len(faultLog) {
		n = len(faultLog)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, " %c%d", faultLog[i], faultLen[i])
	}
	fmt.Printf("CALLS%s\n", b.String())
}

func init() {
	script := os.Getenv("VERIF_MAP") // "all=R,POINT=OFFSET,..."
	for i := range mapAt {
		mapAt[i] = -1
	}
	n := 0
	for _, kv := range strings.Split(script, ",") {
		k, v, ok := strings.Cut(kv, "=")
		if !ok {
			continue
		}
		o, _ := strconv.ParseUint(v, 10, 64)
		if k == "all" {
			mapAll = o
			continue
		}
		mapAt[n], _ = strconv.Atoi(k)
		mapOff[n] = o
		n++
	}
	faultInit()
	begin = func() { mapActive, faultOn = true, true }
	end = func() {
		mapActive, faultOn = false, false
		faultReport()
		if mapN > len(mapUsed) {
			fmt.Println("POINTS overflow")
			return
		}
		var b strings.Builder
		for _, u := range mapUsed[:mapN] {
			fmt.Fprintf(&b, " %d", u)
		}
		fmt.Printf("POINTS%s\n", b.String())
	}
}
