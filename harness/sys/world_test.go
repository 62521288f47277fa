package sys

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
	"zRep/cmd/bridge"
	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

// member is a participant of the reputation table, as the model sees it.
type member struct {
	name  string
	n     *node    // nil for a placeholder
	x     *big.Int // private key
	pub   *big.Int // long-term public key
	rep   int      // what its commitment must hide
	r     *big.Int // placeholders: the opening, as far as it can be followed
	known bool     // placeholders: r is known
	in    bool     // in the current table
	nym   *big.Int // in the current round

	joined   int  // round of its registration
	tabled   bool // was in a table
	provided bool
}

type pooled struct {
	addr     string
	provider *member
	used     bool
}

// grant is one assignment the coordinator asked the servers to sign.
type grant struct {
	addr      string
	requester *member
	provider  *member
	enc       []byte
	back      map[int]bool // servers whose signature was delivered
	released  bool
	voted     bool
}

// world is a network with its reference model.
type world struct {
	*sim
	members []*member // everybody who was ever added, in order
	round   int
	open    bool // between the announcement and the closing of a round
	g       *big.Int
	gt, ht  *big.Int
	keys    []*big.Int // the published table
	vals    []*big.Int
	ann     *msg
	pool    map[string]*pooled
	grants  map[string]*grant // by address, this round
	tally   map[string]int    // by pseudonym, this round
	start   int               // length of the log when the round opened

	accepted  int // votes that counted
	requests  int
	granted   int
	contended int
	posts     int
	faults    int // when > 0 the honest expectations about releases are off
	bad       int // hostile messages
	coordKey  *big.Int

	challenged map[*node]int // challenges of clients that reached the coordinator

	handled  []*msg           // requests the coordinator handled in this round
	repeats  map[*msg]*member // requests repeated from another address, and who made them
	stranger *node
	harmless map[*msg]bool // forged registrations that were refused
}

func newWorld(c *hx.Case, decides string, servers, fakes int) *world {
	w := netless(c, decides)
	w.chain(servers)
	if fakes > 0 {
		w.addFakes(fakes)
	}
	return w
}

// netless is a world that has no servers yet.
func netless(c *hx.Case, decides string) *world {
	w := &world{sim: newSim(c, decides), pool: map[string]*pooled{}, grants: map[string]*grant{}, tally: map[string]int{}, challenged: map[*node]int{}, repeats: map[*msg]*member{}, harmless: map[*msg]bool{}}
	w.on["GN_HONESTY_CHALLENGE"] = func(m *msg) {
		if !m.forged {
			w.challenged[m.src]++
		}
	}
	w.on["POST_BRIDGE"] = w.onPost
	w.on["REQUEST_BRIDGES"] = w.onRequest
	w.on["GOT_SIGNS"] = w.onGotSigns
	w.on["VOTE"] = w.onVote
	return w
}

// addFakes is what the operator loop does before the first round.
func (w *world) addFakes(n int) {
	seed := fmt.Sprintf("fakes/%d", w.c.Int(0, 1<<30, "fakes"))
	stream := random.Stream
	hx.SetEntropy(seed)
	w.code("add placeholders", func() { coordinator.VerifAddFakeClients(w.co.co, n) })
	// the numbers it drew, whatever it used them for
	hx.SetEntropy(seed)
	var picks []*big.Int
	for i := 0; i < 4*n+4; i++ {
		picks = append(picks, hx.S(hx.Suite().Secret().Pick(random.Stream)))
	}
	random.Stream = stream
	gt, ht := hx.I(w.co.co.PedersenBase.GT), hx.I(w.co.co.PedersenBase.HT)
	var ks []string
	for k := range w.co.co.BeginningKeyMap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		pub, comm := hx.I(w.co.co.BeginningKeyMap[k]), hx.I(w.co.co.BeginningCommMap[k])
		m := &member{name: fmt.Sprint("placeholder", len(w.members)), pub: pub}
		for _, p := range picks {
			if hx.Exp(hx.Gen, p).Cmp(pub) == 0 {
				m.x = p
			}
			for v := -2; v <= 10 && !m.known; v++ {
				if hx.Mul(hx.Exp(gt, big.NewInt(int64(v))), hx.Exp(ht, p)).Cmp(comm) == 0 {
					m.r, m.rep, m.known = p, v, true
				}
			}
		}
		if m.known && m.rep != 0 {
			w.fail("C01", "a placeholder starts with reputation %d", m.rep)
		}
		w.members = append(w.members, m)
	}
	if len(ks) != n {
		w.fail("C02 C23", "%d placeholders were asked for, the table has %d", n, len(ks))
	}
}

// join starts a client and sends its registration.
func (w *world) join() *member {
	n := w.addClient()
	m := &member{name: n.name, n: n, x: hx.S(n.cl.PrivateKey), pub: hx.I(n.cl.PublicKey), rep: bridge.StartingCredit, joined: w.round}
	if hx.Exp(hx.Gen, m.x).Cmp(m.pub) != 0 {
		w.fail("C02 C10", "a client's public key is not the one of its private key")
	}
	if bridge.StartingCredit != 5 {
		w.fail("C01", "the starting credit is %d", bridge.StartingCredit)
	}
	w.members = append(w.members, m)
	w.registerClient(n)
	return m
}

// joinRounds is the number of different rounds clients joined in.
func (w *world) joinRounds() int {
	seen := map[int]bool{}
	for _, m := range w.clients() {
		seen[m.joined] = true
	}
	return len(seen)
}

// providers is the number of clients that had a bridge assigned to somebody.
func (w *world) providers() int {
	n := 0
	for _, m := range w.members {
		if m.provided {
			n++
		}
	}
	return n
}

func (w *world) clients() []*member {
	var out []*member
	for _, m := range w.members {
		if m.n != nil {
			out = append(out, m)
		}
	}
	return out
}

// active lists the clients of the current table.
func (w *world) active() []*member {
	var out []*member
	for _, m := range w.clients() {
		if m.in {
			out = append(out, m)
		}
	}
	return out
}

func (w *world) byNym(nym *big.Int) *member {
	for _, m := range w.members {
		if m.in && m.nym != nil && m.nym.Cmp(nym) == 0 {
			return m
		}
	}
	return nil
}

func (w *world) byNode(n *node) *member {
	for _, m := range w.members {
		if m.n != nil && m.n == n {
			return m
		}
	}
	return nil
}

// beginRound does what the operator loop does at the start of a round.
func (w *world) beginRound() {
	co := w.co.co
	if co.Status != coordinator.READY_FOR_NEW_ROUND {
		w.fail("*", "the coordinator is not ready for a new round (status %d)", co.Status)
	}
	w.round++
	w.note("--- round %d ---", w.round)
	w.start = len(w.log)
	w.code("clear", func() { coordinator.VerifClearBuffer(co) })
	co.Status = coordinator.ANNOUNCE
	w.code("announce", func() { coordinator.VerifAnnounce(co) })
}

// openRound runs a whole announcement and checks what was published.
func (w *world) openRound() {
	w.beginRound()
	w.quiesce()
	w.opened()
}

// opened takes in the published table and checks it against the model.
func (w *world) opened() {
	co := w.co.co
	if co.Status != coordinator.MESSAGE {
		w.fail("*", "the announcement did not complete (status %d)", co.Status)
	}
	fin := w.since(w.start, proto.ANNOUNCEMENT_FINALIZE)
	byDst := map[*node]*msg{}
	for _, m := range fin {
		if byDst[m.dst] != nil {
			w.fail("C01 C02", "%s was sent two tables in one round", m.dst.name)
		}
		byDst[m.dst] = m
	}
	if len(fin) == 0 {
		w.fail("*", "no table was published")
	}
	w.ann = fin[0]
	for _, n := range w.ses {
		if byDst[n] == nil {
			w.fail("C01 C02", "%s was not sent the table", n.name)
		}
	}
	for _, m := range fin {
		for _, k := range []string{"keys", "vals", "g", "GT", "HT"} {
			if string(bytesOf(m.ev, k)) != string(bytesOf(w.ann.ev, k)) {
				w.fail("C01", "%s and %s were sent different tables (%s)", m.dst.name, w.ann.dst.name, k)
			}
		}
	}
	w.keys, w.vals = w.points(w.ann.ev, "keys"), w.points(w.ann.ev, "vals")
	w.g, w.gt, w.ht = w.point(w.ann.ev, "g"), w.point(w.ann.ev, "GT"), w.point(w.ann.ev, "HT")
	w.open = true
	w.pool, w.grants, w.tally = map[string]*pooled{}, map[string]*grant{}, map[string]int{}
	w.handled = nil

	// C02: everybody once, nobody else
	if len(w.vals) != len(w.keys) {
		w.fail("C01 C02", "the table has %d pseudonyms and %d commitments", len(w.keys), len(w.vals))
	}
	want := 0
	at := map[string]int{}
	for i, k := range w.keys {
		if _, dup := at[k.String()]; dup {
			w.fail("C02", "pseudonym %s is in the table twice", hx.Short(k))
		}
		at[k.String()] = i
	}
	for _, m := range w.members {
		if !m.in {
			continue
		}
		want++
		if m.x == nil {
			continue
		}
		m.nym = hx.Exp(w.g, m.x)
		i, ok := at[m.nym.String()]
		if !ok {
			w.fail("C02 C01 C21", "%s is not in the table of round %d", m.name, w.round)
		}
		// C01: what the commitment hides
		r := m.r
		if m.n != nil {
			if m.n.cl.R == nil {
				w.fail("C01", "%s has no opening", m.name)
			}
			r = hx.S(m.n.cl.R)
		}
		if (m.n != nil || m.known) && hx.Mul(hx.Exp(w.gt, big.NewInt(int64(m.rep))), hx.Exp(w.ht, r)).Cmp(w.vals[i]) != 0 {
			w.fail("C01 C21", "the commitment of %s in round %d does not open to its reputation %d", m.name, w.round, m.rep)
		}
		m.tabled = true
		if m.n != nil {
			if byDst[m.n] == nil {
				w.fail("C02 C01", "%s was not sent the table of round %d", m.name, w.round)
			}
			if m.n.cl.Reputation != m.rep {
				w.fail("C01", "%s reports reputation %d in round %d, the votes make it %d", m.name, m.n.cl.Reputation, w.round, m.rep)
			}
			if hx.I(m.n.cl.OnetimePseudoNym).Cmp(m.nym) != 0 {
				w.fail("C02", "%s takes another pseudonym than its own", m.name)
			}
			if hx.I(m.n.cl.PCommr).Cmp(w.vals[i]) != 0 || hx.I(m.n.cl.PedersenBase.GT).Cmp(w.gt) != 0 || hx.I(m.n.cl.PedersenBase.HT).Cmp(w.ht) != 0 {
				w.fail("C01", "%s holds another commitment or other generators than those published", m.name)
			}
			if m.n.cl.Status != client.MESSAGE {
				w.fail("C02 C23", "%s did not enter round %d", m.name, w.round)
			}
		}
	}
	if len(w.keys) != want {
		w.fail("C02", "the table of round %d has %d entries for %d participants", w.round, len(w.keys), want)
	}
	// C01: the nodes hold what was published
	w.holds("the coordinator", co.EndingKeyMap, co.EndingCommMap, co.PedersenBase.GT, co.PedersenBase.HT, co.G)
	for _, n := range w.ses {
		w.holds(n.name, n.se.EndingKeyMap, n.se.EndingCommMap, n.se.PedersenBase.GT, n.se.PedersenBase.HT, n.se.G)
	}
}

func (w *world) holds(who string, keys, comms map[string]abstract.Point, gt, ht, g abstract.Point) {
	if hx.I(gt).Cmp(w.gt) != 0 || hx.I(ht).Cmp(w.ht) != 0 || hx.I(g).Cmp(w.g) != 0 {
		w.fail("C01", "%s holds other generators than those published", who)
	}
	if len(keys) != len(w.keys) || len(comms) != len(w.keys) {
		w.fail("C01", "%s holds a table of %d and %d entries, %d were published", who, len(keys), len(comms), len(w.keys))
	}
	val := map[string]*big.Int{}
	for i, k := range w.keys {
		val[k.String()] = w.vals[i]
	}
	for _, k := range hx.Sorted(comms) {
		if keys[k] == nil || comms[k] == nil {
			w.fail("C01", "%s holds an incomplete entry", who)
		}
		v := val[hx.I(keys[k]).String()]
		if v == nil || v.Cmp(hx.I(comms[k])) != 0 {
			w.fail("C01", "%s holds another commitment for %s than the one published", who, k)
		}
	}
}

// closeRound is the end of the posting and voting phases.
func (w *world) closeRound() {
	w.votePhase()
	w.quiesce()
	w.endRound()
	w.quiesce()
	w.ended()
}

func (w *world) votePhase() {
	w.note("operator: vote phase")
	w.code("vote", func() { coordinator.VerifVote(w.co.co) })
}

// endRound runs roundEnd, which may wait for messages to be handled; deliveries go on
// meanwhile.
func (w *world) endRound() { w.end(w.deliver) }

// end delivers messages in a given way; at the end everything is delivered.
func (w *world) end(deliver func(m *msg)) {
	w.note("operator: round end")
	w.open = false
	w.during(func() { coordinator.VerifRoundEnd(w.co.co) }, deliver)
}

// during runs an action of the operator that may wait for messages.
func (w *world) during(f func(), deliver func(m *msg)) {
	// the action and the deliveries take turns: it goes on only when a message was handled
	done, waits, goOn := make(chan string, 1), make(chan bool), make(chan bool)
	coordinator.VerifPause = func(time.Duration) { waits <- true; <-goOn }
	defer func() { coordinator.VerifPause = nil }()
	over := false
	defer func() {
		if !over { // the case failed, let it go
			go func() {
				for {
					select {
					case <-waits:
						goOn <- true
						time.Sleep(time.Second)
					case <-done:
						return
					}
				}
			}()
		}
	}()
	go func() {
		msg, crashed := hx.Panics(f)
		if crashed && msg == "" {
			msg = "panic"
		}
		done <- msg
	}()
	idle, polls := time.Now(), 0
	turn := func() {
		w.collect()
		if len(w.queue) > 0 {
			deliver(w.pick())
			idle = time.Now()
		} else if time.Since(idle) > 60*time.Second {
			w.fail("*", "the operator's action in round %d waits for ever", w.round)
		}
	}
	for {
		select {
		case text := <-done:
			over = true
			if text != "" {
				w.fail("*", "the coordinator ended: %s", text)
			}
			w.steps++
			w.collect()
			for len(w.queue) > 0 {
				deliver(w.pick())
			}
			return
		case <-waits:
			polls = 0
			turn()
			if len(w.queue) == 0 {
				time.Sleep(time.Millisecond)
			}
			goOn <- true
		case <-time.After(10 * time.Millisecond):
			// in case it waits in some other way
			if !coordinator.VerifIdle() {
				polls = 0
				if time.Since(idle) > 120*time.Second {
					over = true
					w.fail("*", "the operator's action in round %d goes on for ever", w.round)
				}
			} else if polls++; polls > 200 {
				turn()
			}
		}
	}
}

// ended checks the end of a round.
func (w *world) ended() {
	co := w.co.co
	if co.Status != coordinator.READY_FOR_NEW_ROUND {
		w.fail("*", "round %d did not end (status %d)", w.round, co.Status)
	}
	// what each participant is told about the votes
	for _, m := range w.since(w.start, proto.ROUND_END) {
		if m.dst.kind != kClient {
			continue
		}
		keys := w.points(m.ev, "keys")
		diffs := util.DecodeIntArray(bytesOf(m.ev, "diffs"))
		if len(keys) != len(diffs) {
			w.fail("C08 C01", "%d pseudonyms and %d differences", len(keys), len(diffs))
		}
		got := map[string]int{}
		for i, k := range keys {
			got[k.String()] += diffs[i]
		}
		for _, k := range hx.Sorted(w.tally) {
			if got[k] != w.tally[k] {
				w.fail("C08", "the tally of %s is %d, the votes accepted make it %d", w.who(k), got[k], w.tally[k])
			}
		}
		for _, k := range hx.Sorted(got) {
			if got[k] != w.tally[k] {
				w.fail("C08", "the tally of %s is %d, the votes accepted make it %d", w.who(k), got[k], w.tally[k])
			}
		}
	}
	// the openings of placeholders follow the broadcast randomness
	var rd *msg
	for _, m := range w.since(w.start, proto.BCAST_PEDERSEN_RDIFF) {
		rd = m
	}
	add := map[string]*big.Int{}
	if rd != nil {
		ks := w.points(rd.ev, "keys")
		rs := util.ProtobufDecodeSecretList(bytesOf(rd.ev, "rDiffs"))
		for i := range ks {
			if i < len(rs) {
				add[ks[i].String()] = hx.S(rs[i])
			}
		}
	}
	// everybody registered by now is in the next table
	pend := map[string]bool{}
	for _, m := range w.members {
		if m.in && m.nym != nil {
			k := m.nym.String()
			m.rep += w.tally[k]
			if m.n == nil && m.known {
				if add[k] == nil {
					m.known = false
				} else {
					m.r = new(big.Int).Add(m.r, add[k])
				}
			}
		}
		if m.n != nil && m.n.cl.R != nil {
			m.in = true
		}
		if m.in {
			pend[m.pub.String()] = true
		}
		m.nym = nil
	}
	// C02: the pseudonyms are mapped back to exactly the long-term keys
	var back *msg
	for _, m := range w.since(w.start, proto.ROUND_END) {
		if m.dst == w.co {
			back = m
		}
	}
	if back == nil {
		w.fail("*", "the table did not come back at the end of round %d", w.round)
	}
	w.longTerm(back, pend)
}

func (w *world) longTerm(m *msg, want map[string]bool) {
	got := map[string]bool{}
	keys := w.points(m.ev, "keys")
	if v := w.points(m.ev, "vals"); len(v) != len(keys) {
		w.fail("C01 C02", "%v has %d keys and %d commitments", m, len(keys), len(v))
	}
	for _, k := range keys {
		if got[k.String()] {
			w.fail("C02", "%v has a key twice", m)
		}
		got[k.String()] = true
		if !want[k.String()] {
			w.fail("C02", "%v has a key that is nobody's long-term key", m)
		}
	}
	for _, p := range w.members {
		if p.pub != nil && want[p.pub.String()] && !got[p.pub.String()] {
			tags := "C02 C01"
			if p.n != nil && !p.tabled {
				tags += " C21"
			}
			w.fail(tags, "%s is missing from %v", p.name, m)
		}
	}
	if len(got) != len(want) {
		w.fail("C02", "%v has %d keys for %d participants", m, len(got), len(want))
	}
}

func (w *world) who(nym string) string {
	for _, m := range w.members {
		if m.nym != nil && m.nym.String() == nym {
			return m.name
		}
	}
	return "pseudonym " + nym
}

// ---------------------------------------------------------------------------
// What honest clients do

func (w *world) post(m *member, addr string) {
	w.note("%s posts %q", m.name, addr)
	w.code("post", func() { client.VerifPostBridge(m.n.cl, addr) })
	w.posts++
}

func (w *world) request(m *member, ind int) {
	w.note("%s (reputation %d) requests %d", m.name, m.rep, ind)
	at := len(w.log)
	w.code("request", func() { client.VerifRequestBridges(m.n.cl, ind) })
	sent := len(w.since(at, proto.REQUEST_BRIDGES))
	if ind >= 0 && ind <= m.rep && sent != 1 {
		w.fail("C05", "%s with reputation %d cannot ask for %d bridges", m.name, m.rep, ind)
	}
	if ind > m.rep && sent != 0 {
		w.c.Class("program sends too large a request")
	}
}

func (w *world) vote(m *member, i, feedback int) {
	w.note("%s votes %+d on its bridge %d (%q)", m.name, feedback, i, m.n.cl.Assignments[i].Assignment.Addr)
	at, a := len(w.log), bridge.EncodeAssignment(m.n.cl.Assignments[i].Assignment)
	w.code("vote", func() { client.VerifSendVote(m.n.cl, i, feedback) })
	sent := w.since(at, proto.VOTE)
	if len(sent) != 1 || sent[0].dst != w.co {
		w.fail("C23", "%s votes on its bridge %d of %d and sends %d votes", m.name, i, len(m.n.cl.Assignments), len(sent))
	}
	if fb, _ := sent[0].ev.Params["feedback"].(int); feedback > 0 && fb != 1 || feedback < 0 && fb != -1 || string(bytesOf(sent[0].ev, "assignment")) != string(a) {
		w.fail("C23", "%s votes %+d on its bridge %d and sends %+d, or a vote on another bridge", m.name, feedback, i, fb)
	}
}

// replace has a client leave, and another program start at its address.
func (w *world) replace(m *member) *member {
	n := m.n
	w.note("%s leaves, another client starts at its address", m.name)
	m.r, m.known, m.n = hx.S(n.cl.R), true, nil
	w.code("start a client", func() { n.cl = client.VerifInit() })
	n.cl.LocalAddr, n.cl.CoordinatorAddr = n.addr, w.co.addr
	x := &member{name: m.name + "'", n: n, x: hx.S(n.cl.PrivateKey), pub: hx.I(n.cl.PublicKey), rep: bridge.StartingCredit, joined: w.round}
	w.members = append(w.members, x)
	w.registerClient(n)
	w.c.Class("a program at the address of one that left")
	return x
}

// ---------------------------------------------------------------------------
// The model follows what the coordinator handles

func (w *world) onPost(m *msg) {
	if m.forged || !w.open {
		return
	}
	p := w.byNode(m.src)
	addr, _ := m.ev.Params["bridge_addr"].(string)
	if w.pool[addr] == nil && p != nil && p.nym != nil {
		w.pool[addr] = &pooled{addr: addr, provider: p}
	}
}

func (w *world) free() int {
	n := 0
	for _, p := range w.pool {
		if !p.used {
			n++
		}
	}
	return n
}

// onRequest checks which bridges a delivered request was given.
func (w *world) onRequest(m *msg) {
	who := w.byNode(m.src)
	if by := w.repeats[m]; by != nil {
		who = by
	} else if m.forged {
		return
	}
	if !w.open {
		return
	}
	w.handled = append(w.handled, m)
	w.requests++
	ind, _ := m.ev.Params["ind"].(int)
	want := ind
	free := w.free()
	if free < want {
		want = free
		w.contended++
	}
	if want < 0 {
		want = 0
	}
	got := w.assigned(who, ind, m)
	if got != want {
		w.fail("C05", "%s asked for %d with %d unassigned bridges and reputation %d and was assigned %d", who.name, ind, free, who.rep, got)
	}
}

// repeat has somebody else send a copy of a request the coordinator handled in this
// round: it is one more request of the client that made it, whoever sent it.
func (w *world) repeat() bool {
	if len(w.handled) == 0 {
		return false
	}
	o := w.handled[w.c.Int(0, len(w.handled)-1, "repeated")]
	by := w.repeats[o]
	if by == nil {
		by = w.byNode(o.src)
	}
	from := w.stranger
	if w.c.Int(0, 1, "by") == 0 {
		from = w.cls[w.c.Int(0, len(w.cls)-1, "client")]
	} else if from == nil {
		from = w.add("stranger", kOutsider)
		w.stranger = from
	}
	w.note("%s repeats a request of %s", from.name, by.name)
	m := w.inject(from.addr.String(), w.co, proto.REQUEST_BRIDGES, params(o))
	w.repeats[m] = by
	w.c.Class("a request repeated from another address")
	return true
}

// impostor registers a key that is somebody's already, from some address: this must not
// touch the entry of its owner, nor what the owner is sent.
func (w *world) impostor() bool {
	var victims []*member
	for _, m := range w.members {
		if m.n == nil || m.n.cl.R != nil { // its own registration was handled
			victims = append(victims, m)
		}
	}
	if len(victims) == 0 {
		return false
	}
	v := victims[w.c.Int(0, len(victims)-1, "victim")]
	from := w.stranger
	if k := w.c.Int(0, 2, "by"); k == 0 && v.n != nil {
		from = v.n
	} else if k == 1 && len(w.cls) > 0 {
		from = w.cls[w.c.Int(0, len(w.cls)-1, "client")]
	} else if from == nil {
		from = w.add("stranger", kOutsider)
		w.stranger = from
	}
	m := w.inject(from.addr.String(), w.co, proto.CLIENT_REGISTER_CONTROLLERSIDE, map[string]interface{}{"public_key": encPoint(v.pub)})
	w.harmless[m] = true
	w.c.Class("a key registered again")
	w.noEffect(m, "C01 C02", "the key of %s registered again, by %s", v.name, from.name)
	return true
}

// assigned takes in what a step made the coordinator ask the servers to sign, checks it
// (C06) and returns the number of assignments.
func (w *world) assigned(requester *member, ind int, cause *msg) int {
	var asks []*msg
	for _, x := range w.log {
		if x.step == w.steps && x.ev.EventType == proto.SIGN_ASSIGNMENTS && !x.forged {
			asks = append(asks, x)
		}
	}
	if len(asks) == 0 {
		return 0
	}
	if len(asks) != len(w.ses) {
		w.fail("C07 C05", "%d of %d servers were asked to sign", len(asks), len(w.ses))
	}
	first := string(bytesOf(asks[0].ev, "assignments"))
	for i, a := range asks {
		if a.dst != w.ses[i] && len(asks) == len(w.ses) {
			// any order will do, but everybody once
			seen := map[*node]bool{}
			for _, b := range asks {
				seen[b.dst] = true
			}
			if len(seen) != len(w.ses) {
				w.fail("C07 C05", "not every server was asked to sign")
			}
		}
		if string(bytesOf(a.ev, "assignments")) != first {
			w.fail("C06 C07", "the servers were asked to sign different assignments")
		}
	}
	list := bridge.DecodeAssignmentList([]byte(first))
	for i := range list {
		a := list[i]
		p := w.pool[a.Addr]
		if p == nil {
			w.fail("C06 C21", "%q was assigned, nobody posted it in this round", a.Addr)
		}
		if p.used {
			w.fail("C06", "%q was assigned twice", a.Addr)
		}
		p.used = true
		p.provider.provided = true
		if requester == nil || requester.nym == nil || hx.I(a.NymR).Cmp(requester.nym) != 0 {
			w.fail("C06", "%q was assigned to another client than the one that asked", a.Addr)
		}
		if hx.I(a.Nym).Cmp(p.provider.nym) != 0 {
			w.fail("C06", "the assignment of %q names another provider than %s", a.Addr, p.provider.name)
		}
		w.granted++
		w.grants[a.Addr] = &grant{addr: a.Addr, requester: requester, provider: p.provider, enc: bridge.EncodeAssignment(&a), back: map[int]bool{}}
	}
	if len(list) > ind {
		w.fail("C06 C04", "%d bridges were assigned to a request for %d", len(list), ind)
	}
	return len(list)
}

// serverIndex is the position of a server in the chain.
func (w *world) serverIndex(n *node) int {
	for i, x := range w.ses {
		if x == n {
			return i
		}
	}
	return -1
}

// onGotSigns follows the signatures of servers on their way to the coordinator and the
// releases it makes.
func (w *world) onGotSigns(m *msg) {
	if m.dst != w.co {
		return
	}
	if at := w.serverIndex(m.src); at >= 0 && m.ev.Params["success"] == true {
		sigs := util.Decode2DByteArray(bytesOf(m.ev, "signatures"))
		for i, a := range bridge.DecodeAssignmentList(bytesOf(m.ev, "assignments")) {
			g, enc := w.grants[a.Addr], bridge.EncodeAssignment(&a)
			if g == nil || string(enc) != string(g.enc) || i >= len(sigs) {
				continue
			}
			if util.ElGamalVerify(hx.Suite(), enc, serverKey(m.src), sigs[i], nil) == nil {
				g.back[at] = true
			}
		}
	}
	for _, x := range w.log {
		if x.step == w.steps && x.ev.EventType == proto.GOT_SIGNS && x.dst != w.co && !x.forged {
			w.release(x)
		}
	}
}

func serverKey(n *node) abstract.Point { return hx.Pt(hx.Exp(hx.Gen, hx.S(n.se.PrivateKey))) }

// release checks one message that hands an assignment to its requester (C07).
func (w *world) release(x *msg) {
	enc := bytesOf(x.ev, "assignment")
	a := bridge.DecodeAssignment(enc)
	g := w.grants[a.Addr]
	if g == nil || string(g.enc) != string(enc) {
		w.fail("C07", "%s was sent an assignment of %q which was never made in this round", x.dst.name, a.Addr)
	}
	if x.dst != g.requester.n {
		w.fail("C07", "the assignment of %q was sent to %s, %s asked for it", a.Addr, x.dst.name, g.requester.name)
	}
	if g.released {
		w.fail("C07", "the assignment of %q was released twice", a.Addr)
	}
	g.released = true
	for i := range w.ses {
		if !g.back[i] {
			w.fail("C07", "the assignment of %q was released before %s signed it", a.Addr, w.ses[i].name)
		}
	}
	w.fullySigned(x, enc)
}

func (w *world) fullySigned(x *msg, enc []byte) {
	sigs := util.Decode2DByteArray(bytesOf(x.ev, "signatures"))
	if len(sigs) != len(w.ses)+1 {
		w.fail("C07", "%v carries %d signatures for %d servers and the coordinator", x, len(sigs), len(w.ses))
	}
	for i, n := range w.ses {
		if err := util.ElGamalVerify(hx.Suite(), enc, hx.Pt(hx.Exp(hx.Gen, hx.S(n.se.PrivateKey))), sigs[i], nil); err != nil {
			w.fail("C07", "%v: signature %d is not a signature of %s on the assignment: %v", x, i, n.name, err)
		}
	}
	cpk := hx.Pt(hx.Exp(hx.Gen, hx.S(w.co.co.PrivateKey)))
	if err := util.ElGamalVerify(hx.Suite(), enc, cpk, sigs[len(w.ses)], nil); err != nil {
		w.fail("C07", "%v: the last signature is not one of the coordinator on the assignment: %v", x, err)
	}
	body := bridge.MessageOfGotSignatures(x.ev.Params)
	if err := util.ElGamalVerify(hx.Suite(), body, cpk, bytesOf(x.ev, "signature"), nil); err != nil {
		w.fail("C07", "%v is not signed by the coordinator: %v", x, err)
	}
}

// onVote follows genuine votes.
func (w *world) onVote(m *msg) {
	if m.forged || m.dst != w.co || !w.open {
		return
	}
	voter := w.byNode(m.src)
	a := bridge.DecodeAssignment(bytesOf(m.ev, "assignment"))
	g := w.grants[a.Addr]
	if g == nil || g.requester != voter || g.voted || string(g.enc) != string(bytesOf(m.ev, "assignment")) {
		return // must not count
	}
	fb, _ := m.ev.Params["feedback"].(int)
	g.voted = true
	w.accepted++
	w.tally[g.provider.nym.String()] += fb
	w.note("  counts %+d for %s", fb, g.provider.name)
}

// told checks that the challenges clients sent about the parameters were answered.
func (w *world) told() {
	if len(w.queue) > 0 {
		return
	}
	answers := map[*node]int{}
	for _, m := range w.log {
		switch m.ev.EventType {
		case proto.GN_HONESTY_ANSWER:
			answers[m.dst]++
		case proto.GN_HONESTY_CHALLENGE, proto.CLIENT_REGISTER_SERVERSIDE, proto.CLIENT_REGISTER_CONTROLLERSIDE, proto.CLIENT_REGISTER_CONFIRMATION:
			if m.forged && !w.harmless[m] { // somebody may have used up the client's challenge
				return
			}
		}
	}
	for _, n := range w.cls {
		if answers[n] != w.challenged[n] {
			w.fail("C21 C15", "%s got %d answers to its %d challenges", n.name, answers[n], w.challenged[n])
		}
	}
}

// settled checks, once everything is delivered, that every grant reached its requester.
func (w *world) settled() {
	w.told()
	for _, k := range hx.Sorted(w.grants) {
		g := w.grants[k]
		if !g.released {
			w.fail("C05", "%q was assigned to %s and never released to it", k, g.requester.name)
		}
		n := 0
		for _, a := range g.requester.n.cl.Assignments {
			if a.Assignment.Addr == k {
				n++
			}
		}
		if n != 1 {
			w.fail("C05", "%s recorded its bridge %q %d times", g.requester.name, k, n)
		}
	}
}

// ---------------------------------------------------------------------------
// Drawn histories

type options struct {
	maxServers, maxFakes, maxRounds, maxJoins, maxOps int
	minRounds                                        int
	minServers, minJoins                             int // crowds
	early                                            bool // registrations before the first announcement
}

// step lets a drawn number of messages be delivered.
func (w *world) drift() {
	switch w.c.Int(0, 3, "deliver") {
	case 0, 1:
		w.quiesce()
	case 2:
		w.some(w.c.Int(1, 4, "some"))
	}
}

// newAddr draws the address of a bridge: usually a new one, sometimes a strange one or
// one that was posted before, in this round or an earlier one.
func (w *world) newAddr() string {
	var old []string
	n := 0
	for _, m := range w.log {
		if m.ev.EventType == proto.POST_BRIDGE {
			n++
			a, _ := m.ev.Params["bridge_addr"].(string)
			old = append(old, a)
		}
	}
	switch w.c.Int(0, 11, "addrKind") {
	case 0:
		if len(old) > 0 {
			return old[w.c.Int(0, len(old)-1, "again")]
		}
	case 1:
		odd := []string{"", " ", "\x00", "a\x00", "b\x00", "bridge with spaces", "\u0431\u0440\u0456\u0434\u0436:1", "\u0411\u0420:1", strings.Repeat("x", 3000),
			"b1\n", "-1", "1", "A", "a", " a", "a ", "\ta", "a\r\n", "\xff\xfe", "%s%d", "\"quoted\"", "a,b;c=d", "#x", "obfs4 192.0.2.1:443 0123ABCDEF cert=a+/Zz iat-mode=0"}
		return odd[w.c.Int(0, len(odd)-1, "odd")]
	case 2:
		// differs from an earlier one only slightly: another address all the same
		if len(old) > 0 {
			a := old[w.c.Int(0, len(old)-1, "like")]
			switch w.c.Int(0, 7, "how") {
			case 0:
				return strings.ToUpper(a)
			case 1:
				return strings.ToLower(a)
			case 2:
				return " " + a
			case 3:
				return a + " "
			case 4:
				return a + "\x00"
			case 5:
				return a + "0"
			case 6:
				return "0" + a
			}
			if len(a) > 0 {
				return a[:len(a)-1]
			}
		}
	}
	forms := []string{"10.%d.0.1:443", "bridge%d.example.org:9001", "[2001:db8::%d]:443", "b%d", "Bridge%d.Example.ORG:9001", "[2001:DB8::%X]:443",
		"obfs4 192.0.2.%d:443 9AF0C21D cert=Ab+/Zz iat-mode=0", "10.0.0.%d:0443"}
	return fmt.Sprintf(forms[w.c.Int(0, len(forms)-1, "addrForm")], n)
}

// plainAddr is a new address.
func (w *world) plainAddr() string {
	n := 0
	for _, m := range w.log {
		if m.ev.EventType == proto.POST_BRIDGE {
			n++
		}
	}
	return fmt.Sprintf("bridge%d:443", n)
}

// op does one drawn thing of the posting and voting phases.
func (w *world) op() {
	act := w.active()
	if len(act) == 0 {
		w.join()
		return
	}
	m := act[w.c.Int(0, len(act)-1, "who")]
	switch w.c.Int(0, 23, "mischief") {
	case 0:
		if w.repeat() {
			return
		}
	case 1:
		if w.impostor() {
			return
		}
	}
	k := w.c.Int(0, 9, "op")
	var voters []*member // those with an assignment to vote on
	for _, v := range act {
		if len(v.n.cl.Assignments) > 0 {
			voters = append(voters, v)
		}
	}
	if k >= 6 && len(voters) == 0 {
		k = w.c.Int(0, 5, "otherOp")
	}
	if k >= 2 && k <= 5 && w.free() == 0 && w.c.Int(0, 3, "postInstead") > 0 {
		k = 0
	}
	switch {
	case k <= 1:
		for i, n := 0, w.c.Int(1, 4, "posts"); i < n; i++ {
			w.post(m, w.newAddr())
		}
	case k <= 5:
		if m.rep < 0 {
			return
		}
		w.request(m, w.askFor(m.rep))
	default:
		m = voters[w.c.Int(0, len(voters)-1, "voter")]
		n := len(m.n.cl.Assignments)
		fb := []int{1, -1, 1, -1, 7, -3, 0}[w.c.Int(0, 6, "feedback")]
		if w.c.Int(0, 2, "all") > 0 {
			for i := 0; i < n; i++ {
				w.vote(m, i, fb)
			}
		} else {
			w.vote(m, w.c.Int(0, n-1, "bridge"), fb)
		}
	}
}

// askFor draws a number of bridges a reputation allows, often all of it.
func (w *world) askFor(rep int) int {
	switch w.c.Int(0, 4, "ask") {
	case 0:
		return rep
	case 1:
		if rep > 0 {
			return 1
		}
	}
	return w.c.Int(0, rep, "ind")
}

// stage is a network in an open round (the second or later) with at least n clients in
// the table, some of which were voted up or down before.
func stage(c *hx.Case, decides string, n int, o stageOpts, keep func(*sim)) *world {
	w := newWorld(c, decides, c.Tail(o.minServers, o.maxServers, o.maxServers+4, "servers"), c.Tail(0, o.maxFakes, 4*o.maxFakes, "fakes"))
	keep(w.sim)
	for _, m := range w.members {
		m.in = true
	}
	w.fifo = true
	w.openRound()
	for i := 0; i < n; i++ {
		w.join()
		w.quiesce()
	}
	w.closeRound()
	for r, rounds := 0, c.Int(0, o.before, "rounds before"); r < rounds; r++ {
		w.openRound()
		act := w.active()
		prov := act[c.Int(0, len(act)-1, "provider")]
		for i, k := 0, c.Int(1, 4, "posts before"); i < k; i++ {
			w.post(prov, w.plainAddr())
		}
		w.quiesce()
		for _, m := range act {
			if m != prov && m.rep > 0 {
				w.request(m, w.askFor(m.rep))
			}
		}
		w.quiesce()
		fb := 1 - 2*c.Int(0, 1, "down")
		for _, m := range act {
			for i := range m.n.cl.Assignments {
				w.vote(m, i, fb)
			}
		}
		w.closeRound()
	}
	w.openRound()
	return w
}

type stageOpts struct{ minServers, maxServers, maxFakes, before int }

// capture runs f and takes what it sent out of the network.
func (w *world) capture(f func()) []*msg {
	old := w.tap
	var got []*msg
	w.tap = func(m *msg) bool { got = append(got, m); return false }
	defer func() { w.tap = old }()
	f()
	return got
}

// tables is what the rest of the round depends on at the coordinator.
func (w *world) tables() map[string]string {
	f := fields(w.co.co, "Bridges", "BeginningKeyMap", "BeginningCommMap", "EndingKeyMap", "EndingCommMap", "NewClientsBuffer",
		"Clients", "ServerList", "G", "PedersenBase")
	tally := map[string]string{}
	for k, v := range w.co.co.ReputationDiffMap {
		if v != 0 {
			tally[k] = fmt.Sprint(v)
		}
	}
	for _, k := range hx.Sorted(tally) {
		f["tally"] += k + ":" + tally[k] + " "
	}
	log := w.co.co.AssignmentSignaturesLog
	for _, k := range hx.Sorted(log) {
		f["signatures"] += fmt.Sprintf("%q:%x ", k, log[k].Signatures)
	}
	return f
}

// noEffect delivers a message that must be refused by the coordinator.
func (w *world) noEffect(m *msg, props, format string, args ...interface{}) {
	what := fmt.Sprintf(format, args...)
	w.note("forged: %s", what)
	before := w.tables()
	w.code(what, func() {
		w.unqueue(m)
		handle(m)
	})
	if d := diff(before, w.tables()); d != "" {
		w.fail(props, "%s had an effect: %s", what, d)
	}
	for _, x := range w.log {
		if x.step == w.steps && !x.forged {
			w.fail(props, "%s was answered with %v", what, x)
		}
	}
}

// params copies the parameters of an event.
func params(m *msg) map[string]interface{} {
	out := map[string]interface{}{}
	for k, v := range m.ev.Params {
		if b, ok := v.([]byte); ok {
			v = append([]byte{}, b...)
		}
		out[k] = v
	}
	return out
}

// drain asks for everything that is left, votes on it and runs to the next round, so
// that anything a forgery left behind comes to light.
func (w *world) drain() {
	w.quiesce()
	for _, m := range w.active() {
		if m.rep > 0 {
			w.request(m, m.rep)
			w.quiesce()
		}
	}
	w.settled()
	for _, m := range w.active() {
		for i := range m.n.cl.Assignments {
			w.vote(m, i, 1)
		}
	}
	w.closeRound()
	w.openRound()
}

// history runs a whole drawn history.
func history(c *hx.Case, decides string, o options, keep func(*sim)) *world {
	if o.minServers == 0 {
		o.minServers = 1
	}
	w := newWorld(c, decides, c.Tail(o.minServers, o.maxServers, 2*o.maxServers, "servers"), c.Tail(0, o.maxFakes, 4*o.maxFakes, "fakes"))
	keep(w.sim)
	for _, m := range w.members {
		m.in = true
	}
	w.fifo = c.Bool("fifo")
	rounds := c.Int(o.minRounds, o.maxRounds, "rounds")
	for r := 1; r <= rounds; r++ {
		if c.Int(0, 7, "between rounds") == 0 {
			w.impostor()
		}
		w.openRound()
		if act := w.active(); len(act) > 0 && c.Int(0, 5, "leave") == 0 {
			w.replace(act[c.Int(0, len(act)-1, "leaves")])
		}
		joins := c.Int(0, o.maxJoins, "joins")
		if r == 1 {
			joins = c.Int(o.minJoins+1, o.maxJoins+1, "first joins")
		}
		joined := 0
		if r > 1 {
			n := c.Int(1, o.maxOps, "ops")
			for i := 0; i < n; i++ {
				if joined < joins && c.Bool("joinNow") {
					w.join()
					joined++
				}
				w.op()
				w.drift()
			}
		}
		for ; joined < joins; joined++ {
			w.join()
			w.drift()
		}
		w.quiesce()
		w.settled()
		w.votePhase()
		w.quiesce()
		if r > 1 {
			for i, n := 0, c.Int(0, o.maxOps/2, "late ops"); i < n; i++ {
				w.op()
			}
			w.quiesce()
			w.settled()
		}
		w.endRound()
		w.quiesce()
		w.ended()
	}
	w.openRound()
	return w
}
