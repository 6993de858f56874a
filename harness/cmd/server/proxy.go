package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"maps"
	"math/rand/v2"
	"net"
	"os"
	"regexp"
	"strings"
	"sync"
)

// proxy stands between the code under test and the database server, counts the commands and makes
// one of them fail.
type proxy struct {
	ln     net.Listener
	target string

	mu     sync.Mutex
	conns  map[*pconn]bool
	n      int              // commands since armed
	at     int              // which one fails, 0: none
	class  string           // count the commands of this class only
	seen   map[string]int   // commands by class since armed
	sizes  map[string][]int // sizes of their answers
	epoch  int              // number of armings
	kind   string           // how
	cut    int              // for "partial": how many bytes of the answer are delivered
	dead   bool             // no connections anymore
	fired  string           // the command that failed
	closed bool
}

type pconn struct {
	c, s    net.Conn
	mu      sync.Mutex
	class   string // the last command,
	idx     int    // its number in the class,
	epoch   int    // and when
	partial int    // bytes of the answer still to deliver, -1: no limit
	mute    bool   // do not deliver answers anymore
}

func (p *pconn) close() { p.c.Close(); p.s.Close() }

func newProxy() *proxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	port := os.Getenv("MYSQL_PORT")
	if port == "" {
		port = "3306"
	}
	p := &proxy{seen: map[string]int{}, sizes: map[string][]int{}, ln: ln, target: "127.0.0.1:" + port, conns: map[*pconn]bool{}}
	go p.accept()
	return p
}

func (p *proxy) port() string { return fmt.Sprint(p.ln.Addr().(*net.TCPAddr).Port) }

func (p *proxy) stop() {
	p.mu.Lock()
	p.closed = true
	p.mu.Unlock()
	p.ln.Close()
	p.killAll()
}

func (p *proxy) killAll() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for c := range p.conns {
		c.close()
	}
}

// arm makes the k-th command of a class (empty: any) from now on fail (0: none) and starts counting anew.
func (p *proxy) arm(k int, class, kind string, cut int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.n, p.at, p.class, p.kind, p.cut, p.fired, p.dead = 0, k, class, kind, cut, "", false
	p.seen = map[string]int{}
	p.sizes = map[string][]int{}
	p.epoch++
}

// answerSizes: of each class of commands since armed, the number of bytes of the answers.
func (p *proxy) answerSizes() map[string][]int {
	p.mu.Lock()
	defer p.mu.Unlock()
	all := map[string][]int{}
	for k, v := range p.sizes {
		all[k] = append([]int(nil), v...)
	}
	return all
}

// tear selects where to tear an answer of some size: mostly close to the end.
func tear(rng *rand.Rand, size int) int {
	if size < 2 {
		return 1
	}
	if rng.IntN(3) > 0 {
		return max(1, size-1-rng.IntN(min(size, 60)))
	}
	return 1 + rng.IntN(size-1)
}

// profile is the number of commands of each class since armed.
func (p *proxy) profile() map[string]int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return maps.Clone(p.seen)
}

var variable = regexp.MustCompile(`[0-9]+|'[^']*'|(\(\?[^)]*\),?)+|(\?,)+`)

func classOf(b []byte) string {
	if len(b) > 2000 {
		b = b[:2000]
	}
	s := strings.Join(strings.Fields(variable.ReplaceAllString(string(b), "#")), " ")
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

// disarm: no more failures (what is dead remains so).
func (p *proxy) disarm() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.at = 0
}

func (p *proxy) count() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.n
}

func (p *proxy) what() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fired
}

func (p *proxy) accept() {
	for {
		c, err := p.ln.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		dead := p.dead || p.closed
		p.mu.Unlock()
		if dead {
			c.Close()
			continue
		}
		s, err := net.Dial("tcp", p.target)
		if err != nil {
			c.Close()
			continue
		}
		pc := &pconn{c: c, s: s, partial: -1}
		p.mu.Lock()
		p.conns[pc] = true
		if p.dead || p.closed {
			pc.close()
		}
		p.mu.Unlock()
		go p.answers(pc)
		go p.commands(pc)
	}
}

func (p *proxy) drop(pc *pconn) {
	pc.close()
	p.mu.Lock()
	delete(p.conns, pc)
	p.mu.Unlock()
}

// answers copies from the server to the client.
func (p *proxy) answers(pc *pconn) {
	defer p.drop(pc)
	buf := make([]byte, 64<<10)
	for {
		n, err := pc.s.Read(buf)
		b := buf[:n]
		p.mu.Lock()
		if z := p.sizes[pc.class]; pc.epoch == p.epoch && pc.idx < len(z) {
			z[pc.idx] += n
		}
		p.mu.Unlock()
		pc.mu.Lock()
		if pc.mute {
			pc.mu.Unlock()
			return
		}
		if pc.partial >= 0 {
			if n > pc.partial {
				b = b[:pc.partial]
			}
			pc.partial -= len(b)
		}
		end := pc.partial == 0
		pc.mu.Unlock()
		if len(b) > 0 {
			if _, err := pc.c.Write(b); err != nil {
				return
			}
		}
		if err != nil || end {
			return
		}
	}
}

// commands copies packets from the client to the server.
func (p *proxy) commands(pc *pconn) {
	defer p.drop(pc)
	var hdr [4]byte
	var class, prep string
	for {
		if _, err := io.ReadFull(pc.c, hdr[:]); err != nil {
			return
		}
		n := int(hdr[0]) | int(hdr[1])<<8 | int(hdr[2])<<16
		body := make([]byte, n)
		if _, err := io.ReadFull(pc.c, body); err != nil {
			return
		}
		kind := ""
		if hdr[3] == 0 && n > 0 && (body[0] == 0x03 || body[0] == 0x16 || body[0] == 0x17) {
			p.mu.Lock()
			switch body[0] {
			case 0x16:
				prep = classOf(body[1:])
				class = "prepare " + prep
			case 0x17:
				class = "execute " + prep
			default:
				class = classOf(body[1:])
			}
			p.seen[class]++
			pc.class, pc.idx, pc.epoch = class, len(p.sizes[class]), p.epoch
			p.sizes[class] = append(p.sizes[class], 0)
			if p.class == "" || p.class == class {
				p.n++
			}
			if p.at != 0 && p.n == p.at && p.fired == "" {
				kind = p.kind
				p.fired = fmt.Sprintf("%s at command %d: %s", kind, p.n, class)
				if kind == "kill-before" || kind == "kill-after" {
					p.dead = true
				}
			}
			p.mu.Unlock()
		}
		if hdr[3] == 0 { // the answer to the last command was complete
			pc.mu.Lock()
			if pc.partial > 0 {
				pc.partial = -1
			}
			pc.mu.Unlock()
		}
		forward := func() bool {
			if _, err := pc.s.Write(append(hdr[:4:4], body...)); err != nil {
				return false
			}
			return true
		}
		switch kind {
		case "cut-before":
			return
		case "kill-before":
			p.killAll()
			return
		case "cut-after", "kill-after":
			// The server gets the command; nobody gets its answer.
			pc.mu.Lock()
			pc.mute = true
			pc.mu.Unlock()
			forward()
			if kind == "kill-after" {
				p.killAll()
			}
			return
		case "partial":
			pc.mu.Lock()
			pc.partial = p.cut
			pc.mu.Unlock()
			if !forward() {
				return
			}
			continue
		case "error":
			msg := []byte{0xff, 0, 0, '#'}
			binary.LittleEndian.PutUint16(msg[1:], 1105)
			msg = append(msg, "HY000injected failure"...)
			out := append([]byte{byte(len(msg)), 0, 0, 1}, msg...)
			if _, err := pc.c.Write(out); err != nil {
				return
			}
			continue
		}
		if !forward() {
			return
		}
	}
}
