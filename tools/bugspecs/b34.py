import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P22-shared-random-buffer"; prop="P22"; race=True
needs="two builders that draw an identifier at the same moment"
breaks="the buffer for random bytes is kept between calls and shared by all builders, so two of them can get the same or mixed identifiers"
edits=[("internal/helpers.go","""func CryptoRandUint64() (uint64, error) {
   randBytes := make([]byte, 8)
   _, err := rand.Read(randBytes)
""","""var randBuffer [8]byte // avoids an allocation per identifier

func CryptoRandUint64() (uint64, error) {
   randBytes := randBuffer[ : ]
   _, err := rand.Read(randBytes)
""")]
demo=demo('''
	g := &gate{ open: make(chan struct{}) }
	crand.Reader = g
	var wg sync.WaitGroup
	var ids [2]uint64
	for i := range ids {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			b := builder.New()
			ids[i] = b.GetFontID()
		}(i)
	}
	wg.Wait()
	if ids[0] == ids[1] { fail("two fonts created at the same time both have the ID %x", ids[0]) }
	for _, id := range ids {
		if !g.given[id] { fail("a font has the ID %x, which was never drawn", id) }
	}
''','''
// gate hands out different random bytes to the readers, then lets them go on together.
type gate struct {
	mu sync.Mutex
	n int
	given map[uint64]bool
	open chan struct{}
}
func (g *gate) Read(p []byte) (int, error) {
	g.mu.Lock()
	g.n += 1
	h := sha256.Sum256([]byte{ byte(g.n), byte(g.n >> 8) })
	copy(p, h[:])
	if g.given == nil { g.given = map[uint64]bool{} }
	g.given[binary.LittleEndian.Uint64(h[:])] = true
	if g.n == 2 { close(g.open) }
	g.mu.Unlock()
	select {
	case <-g.open:
	case <-time.After(2*time.Second):
	}
	return len(p), nil
}
''').replace('import (\n','import (\n	crand "crypto/rand"\n	"crypto/sha256"\n	"encoding/binary"\n	"sync"\n	"time"\n',1)
