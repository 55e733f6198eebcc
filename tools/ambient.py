#!/usr/bin/env python3
"""Writes copies of two files of Go's standard library, and an overlay that puts
them in place: time.Now is MON_CLOCK seconds off, and every environment variable
that is asked for and not set has the value MON_ENVVAL; opening a connection is
noted like opening a file."""
import json, os, sys
root, out = sys.argv[1], sys.argv[2]
os.makedirs(out)

def change(path, name, *edits):
    s = open(os.path.join(root, 'src', path)).read()
    for a, b in edits:
        if s.count(a) != 1:
            sys.exit(f'{path}: {a!r} occurs {s.count(a)} times')
        s = s.replace(a, b)
    open(os.path.join(out, name), 'w').write(s)
    return os.path.join(root, 'src', path), os.path.join(out, name)

env = change('syscall/env_unix.go', 'env_unix.go',
    ('func Getenv(key string) (value string, found bool) {', '''func Getenv(key string) (value string, found bool) {
	value, found = getenv(key)
	if found || key == "" {
		return value, found
	}
	for _, p := range [...]string{"GO", "MON_", "VERIF", "TZ", "TMPDIR", "PATH", "HOME", "LD_", "ZONEINFO"} {
		if len(key) >= len(p) && key[:len(p)] == p {
			return value, found
		}
	}
	forced, ok := getenv("MON_ENVVAL")
	if !ok {
		return value, found
	}
	return forced, true
}

func getenv(key string) (value string, found bool) {'''))
clock = change('time/time.go', 'time.go',
    ('func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n', '''func Now() Time {
	sec, nsec, mono := runtimeNow()
	sec += clockOff
'''),
    ('func unixTime(sec int64, nsec int32) Time {', '''var clockOff = func() (n int64) {
	s, _ := syscall.Getenv("MON_CLOCK")
	neg := len(s) > 0 && s[0] == '-'
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			n = n*10 + int64(s[i]-'0')
		}
	}
	if neg {
		n = -n
	}
	return n
}()

func unixTime(sec int64, nsec int32) Time {'''),
    ('import (\n', 'import (\n\t"syscall"\n'))
dial = change('net/dial.go', 'dial.go',
    ('func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n', '''func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	testlog.Open("connection to " + address)
'''),
    ('import (\n', 'import (\n\t"internal/testlog"\n'))
json.dump({'Replace': dict([env, clock, dial])}, open(os.path.join(out, 'overlay.json'), 'w'))
