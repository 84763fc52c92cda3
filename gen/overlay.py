#!/usr/bin/env python3
"""overlay.py DIR: changed copies of a few files of the Go runtime, for `go build -overlay`.
 * everything random in maps (hash seeds, start of iterations) comes from METAC_SIM_SEED;
 * every open, read, write, stat, directory read and chdir is a fault point: METAC_SIM_IO=kind:ordinal:what,... (O open, R read, W write, S stat, D directory, C chdir;
   what = an errno, s<N> for at most N bytes, or k: the process is killed there, half of a write done) and every call is logged to the descriptor METAC_SIM_LOG."""
import json, os, subprocess, sys
out = os.path.abspath(sys.argv[1]); os.makedirs(out, exist_ok=True)
root = subprocess.run(['go', 'env', 'GOROOT'], capture_output=True, text=True, check=True).stdout.strip() + '/src/'
rep = {}
def patch(f, *subs):
    s = open(root + f).read()
    for a, b in subs:
        if s.count(a) != 1: sys.exit(f'overlay: {f}: pattern is there {s.count(a)} times: {a!r}')
        s = s.replace(a, b)
    o = out + '/' + f.replace('/', '_'); open(o, 'w').write(s); rep[root + f] = o
def add(f, s):
    o = out + '/' + f.replace('/', '_'); open(o, 'w').write(s); rep[root + f] = o
patch('runtime/rand.go', ('func maps_rand() uint64 {\n\treturn rand()\n}', '''func maps_rand() uint64 {
	if simSeed == 0 && envs != nil {
		s := gogetenv("METAC_SIM_SEED")
		simSeed = 0x9E3779B97F4A7C15
		for i := 0; i < len(s); i++ {
			simSeed = (simSeed ^ uint64(s[i])) * 0x100000001B3
		}
		if s == "" {
			simSeed = rand() | 1
		}
	}
	simCount += 0x9E3779B97F4A7C15
	x := simSeed ^ simCount
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

var simSeed, simCount uint64'''))
patch('internal/runtime/maps/runtime_alg.go', ('hashkey[i] = uintptr(bootstrapRand())', 'hashkey[i] = uintptr(0x5851F42D4C957F2D*uint64(i+1)) | 1'), ('key[i] = bootstrapRand()', 'key[i] = 0x2545F4914F6CDD1D * uint64(2*i+1)'))
patch('internal/poll/fd_unix.go',
    ('\tn, err := ignoringEINTR2(func() (int, error) {\n\t\treturn syscall.Pread(fd.Sysfd, p, off)\n\t})', '\tp, serr := SimIO(\'R\', p)\n\tn, err := ignoringEINTR2(func() (int, error) {\n\t\tif serr != nil {\n\t\t\treturn 0, serr\n\t\t}\n\t\treturn syscall.Pread(fd.Sysfd, p, off)\n\t})'),
    ('\tfor {\n\t\tn, err := ignoringEINTRIO(syscall.Read, fd.Sysfd, p)', '\tp, serr := SimIO(\'R\', p)\n\tif serr != nil {\n\t\treturn 0, serr\n\t}\n\tfor {\n\t\tn, err := ignoringEINTRIO(syscall.Read, fd.Sysfd, p)'),
    ('\t\tn, err := ignoringEINTRIO(syscall.Write, fd.Sysfd, p[nn:max])', '\t\tsp, serr := SimIO(\'W\', p[nn:max])\n\t\tif serr != nil {\n\t\t\treturn nn, serr\n\t\t}\n\t\tn, err := ignoringEINTRIO(syscall.Write, fd.Sysfd, sp)'))
patch('os/file_open_unix.go', ('\tfd, err := syscall.Open(path, flag, perm)', '\tif _, serr := poll.SimIO(\'O\', nil); serr != nil {\n\t\treturn -1, poll.SysFile{}, serr\n\t}\n\tfd, err := syscall.Open(path, flag, perm)'))
patch('internal/poll/fd_unixjs.go', ('\tfor {\n\t\tn, err := ignoringEINTRIO(syscall.ReadDirent', "\tif _, serr := SimIO('D', nil); serr != nil {\n\t\treturn 0, serr\n\t}\n\tfor {\n\t\tn, err := ignoringEINTRIO(syscall.ReadDirent"))
patch('os/stat_unix.go', *((f'\terr := ignoringEINTR(func() error {{\n\t\treturn syscall.{c}(', f"\terr := ignoringEINTR(func() error {{\n\t\tif _, serr := poll.SimIO('S', nil); serr != nil {{\n\t\t\treturn serr\n\t\t}}\n\t\treturn syscall.{c}(") for c in ('Stat', 'Lstat')), ('import (\n', 'import (\n\t"internal/poll"\n'))
patch('os/file.go', ('\tif e := syscall.Chdir(dir); e != nil {', "\t_, e := poll.SimIO('C', nil)\n\tif e == nil {\n\t\te = syscall.Chdir(dir)\n\t}\n\tif e != nil {"))
add('internal/poll/sim.go', '''package poll

import "syscall"

type simPlan struct {
	kind byte
	ord  int
	err  syscall.Errno
	size int
}

var simPlans []simPlan
var simInit bool
var simLog = -1
var simOrd [256]int

func simNum(s string) (n int) {
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func simSetup() {
	simInit = true
	if s, ok := syscall.Getenv("METAC_SIM_LOG"); ok {
		simLog = simNum(s)
	}
	s, _ := syscall.Getenv("METAC_SIM_IO")
	for s != "" {
		e := 0
		for e < len(s) && s[e] != ',' {
			e++
		}
		w := s[:e]
		if e < len(s) {
			e++
		}
		s = s[e:]
		c := 2
		for c < len(w) && w[c] != ':' {
			c++
		}
		p := simPlan{kind: w[0], ord: simNum(w[2:c]), size: -1}
		if w[c+1] == 'k' {
			p.size = -2
		} else if w[c+1] == 's' {
			p.size = simNum(w[c+2:])
		} else {
			p.err = syscall.Errno(simNum(w[c+1:]))
		}
		simPlans = append(simPlans, p)
	}
}

// SimIO decides what happens with one call.
func SimIO(kind byte, p []byte) ([]byte, error) {
	if !simInit {
		simSetup()
	}
	n := simOrd[kind]
	simOrd[kind]++
	hit := byte('.')
	var err error
	for _, x := range simPlans {
		if x.kind == kind && x.ord == n {
			if x.size == -2 {
				if simLog >= 0 {
					syscall.Write(simLog, []byte{kind, 'K'})
				}
				if kind == 'W' && len(p) > 1 {
					syscall.Write(1, p[:len(p)/2])
				}
				syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
			} else if x.size < 0 {
				err = x.err
				hit = 'E'
			} else if x.size < len(p) && err == nil {
				p = p[:x.size]
				hit = 's'
			}
		}
	}
	if simLog >= 0 {
		syscall.Write(simLog, []byte{kind, hit})
	}
	return p, err
}
''')
json.dump({'Replace': rep}, open(out + '/overlay.json', 'w'))
