package e2e

import (
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strings"
	"testing"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

const startCredit, placeholders = 5, 10

// user is a client program, or the observer (p nil).
type user struct {
	name   string
	p      *proc
	r      *relay
	joined int // in the table of this round and the following
	gone   bool
	rep    int
	tally  int
	got    []string // bridges it was given in this round, in the order it got them
	rounds int      // rounds it takes part in so far
	ends   int      // rounds of which it was told the end

	expected int // number of bridges it must have got in this round
	seen     int // position in the output up to which bridges were taken in
	posts    int
}

type post struct {
	addr string
	by   *user
	to   *user
	vote bool
}

type script struct {
	*world
	users []*user
	me    *user // the observer
	x     abstract.Secret
	r     abstract.Secret // opens the observer's commitment
	g     abstract.Point
	round int
	pool  map[string]*post
	free  int

	finals, votes, ends, diffs int // events of the observer taken in so far
	reps                       map[int]bool
	stats                      struct{ posts, grants, votes, joins, leaves, errors int }
}

var suite = hx.Suite()

func newScript(c *hx.Case, bin string) *script {
	s := &script{world: newWorld(c, bin), pool: map[string]*post{}}
	return s
}

func (s *script) observe() {
	s.obs = s.observer()
	s.me = &user{name: "observer", rep: startCredit}
	s.x = suite.Secret().Pick(random.Stream)
	pub, _ := suite.Point().Mul(nil, s.x).MarshalBinary()
	s.note("observer registers")
	s.obs.send(proto.CLIENT_REGISTER_CONTROLLERSIDE, map[string]interface{}{"public_key": pub})
	s.users = append(s.users, s.me)
	s.me.joined = s.round + 1
	if s.round == 0 {
		s.me.joined = 2
	}
}

// key is a press of the return key in the coordinator's window.
func (s *script) key(what string) {
	s.note("operator presses return: %s", what)
	if _, err := s.co.in.Write([]byte("\n")); err != nil {
		s.settle()
		hx.Infra("key press: %v", err)
	}
}

// join starts a client program while a round is open.
func (s *script) join() *user {
	r := s.relay()
	u := &user{name: fmt.Sprint("client", len(s.users)), r: r, rep: startCredit, joined: s.round + 1}
	s.note("%s starts", u.name)
	port := strings.SplitN(r.ln.Addr().String(), ":", 2)[1]
	var n int
	fmt.Sscan(port, &n)
	u.p = s.spawn(u.name, "client", s.config(u.name, s.port, n))
	s.must(u.name+" does not send its registration", func() bool { return r.count(proto.CLIENT_REGISTER_CONTROLLERSIDE) > 0 })
	s.barrier()
	s.users = append(s.users, u)
	s.stats.joins++
	return u
}

func (s *script) in(u *user) bool { return u.joined <= s.round && !u.gone }

// opened waits until the round is open for everybody and checks what was published.
func (s *script) opened() {
	s.round++
	s.note("--- round %d", s.round)
	s.pool, s.free = map[string]*post{}, 0
	for _, u := range s.users {
		u.expected, u.got, u.tally, u.posts = 0, nil, 0, 0
	}
	if s.round == 1 {
		// nobody is in the table yet; the observer is let in once the round is open
		s.must("the observer is not registered in the first round", func() bool { return len(s.obs.all(proto.INIT_PEDERSEN_R)) > 0 })
		s.takeInit()
		return
	}
	s.must("no announcement reaches the observer", func() bool { return len(s.obs.all(proto.ANNOUNCEMENT_FINALIZE)) > s.finals })
	s.mu.Lock()
	ev := s.obs.all(proto.ANNOUNCEMENT_FINALIZE)[s.finals]
	s.mu.Unlock()
	s.finals++
	pt := func(name string) abstract.Point {
		b, _ := ev.Params[name].([]byte)
		p := suite.Point()
		if err := p.UnmarshalBinary(b); err != nil {
			s.fail("the announcement has no %s: %v", name, err)
		}
		return p
	}
	s.g = pt("g")
	kb, _ := ev.Params["keys"].([]byte)
	vb, _ := ev.Params["vals"].([]byte)
	keys, vals := util.ProtobufDecodePointList(kb), util.ProtobufDecodePointList(vb)
	want := placeholders
	for _, u := range s.users {
		if u.joined <= s.round {
			want++
		}
	}
	if len(keys) != want || len(vals) != want {
		s.fail("round %d publishes %d keys and %d commitments, not %d", s.round, len(keys), len(vals), want)
	}
	nym := suite.Point().Mul(s.g, s.x)
	at := -1
	seen := map[string]bool{}
	for i, k := range keys {
		if seen[hx.I(k).String()] {
			s.fail("a key is published twice")
		}
		seen[hx.I(k).String()] = true
		if hx.I(k).Cmp(hx.I(nym)) == 0 {
			at = i
		}
	}
	if at < 0 {
		s.fail("the observer's entry is missing from round %d", s.round)
	}
	if !hx.Opens(pt("GT"), pt("HT"), big.NewInt(int64(s.me.rep)), hx.S(s.r), vals[at]) {
		s.fail("the observer's commitment of round %d does not open to its reputation %d", s.round, s.me.rep)
	}
	for _, u := range s.users {
		if !s.in(u) || u.p == nil {
			continue
		}
		u.rounds++
		u := u
		s.must(u.name+" is not told that the round is open", func() bool { return u.p.sees("Messaging Phase begins") >= u.rounds })
		m := lastInt(u.p.text(), `My reputation is (-?\d+)`)
		if m == nil || *m != u.rep {
			s.fail("%s thinks its reputation is %v, it is %d", u.name, str(m), u.rep)
		}
		if n := u.p.sees("Messaging Phase begins"); n != u.rounds {
			s.fail("%s was told of %d rounds, it takes part in %d", u.name, n, u.rounds)
		}
	}
}

func (s *script) takeInit() {
	s.must("the observer gets no randomness", func() bool { return len(s.obs.all(proto.INIT_PEDERSEN_R)) > 0 })
	s.mu.Lock()
	ev := s.obs.all(proto.INIT_PEDERSEN_R)[0]
	s.mu.Unlock()
	b, _ := ev.Params["r"].([]byte)
	s.r = util.DecodeSecret(suite, b)
	s.g = suite.Point()
	b, _ = ev.Params["g"].([]byte)
	if err := s.g.UnmarshalBinary(b); err != nil {
		s.fail("the observer gets no generator: %v", err)
	}
}

func str(i *int) string {
	if i == nil {
		return "unknown"
	}
	return fmt.Sprint(*i)
}

func lastInt(text, re string) *int {
	m := regexp.MustCompile(re).FindAllStringSubmatch(text, -1)
	if len(m) == 0 {
		return nil
	}
	var n int
	fmt.Sscan(m[len(m)-1][1], &n)
	return &n
}

var gotBridge = regexp.MustCompile(`(?m)Got bridge (\S+)$`)

// collect takes in the bridges a client printed; w.mu is held.
func (u *user) collect() {
	out := u.p.out.String()
	for {
		m := gotBridge.FindStringSubmatchIndex(out[u.seen:])
		if m == nil || u.seen+m[1] >= len(out) {
			return
		}
		u.got = append(u.got, out[u.seen+m[2]:u.seen+m[3]])
		u.seen += m[1]
	}
}

var serial int

func (s *script) newAddr() string {
	serial++
	hosts := []string{"10.0.%d.%d:443", "bridge%d.example.org:%d", "[2001:db8::%x]:%d", "obfs4-%d/%d?x=y"}
	return fmt.Sprintf(hosts[s.c.Int(0, len(hosts)-1, "host")], serial, 1+s.c.Int(0, 200, "n"))
}

// post lets a user post a bridge.
func (s *script) post(u *user) {
	addr := s.newAddr()
	if u.p != nil {
		n := 0
		s.mu.Lock()
		n = u.r.count(proto.POST_BRIDGE)
		s.mu.Unlock()
		u.p.typeLine("post " + addr)
		s.must(u.name+" does not send its post", func() bool { return u.r.count(proto.POST_BRIDGE) > n })
	} else {
		s.note("observer posts %s", addr)
		nym, _ := suite.Point().Mul(s.g, s.x).MarshalBinary()
		pm := map[string]interface{}{"bridge_addr": addr, "nym": nym}
		pm["signature"] = util.ElGamalSign(suite, suite.Cipher(abstract.RandomKey), bridge.MessageOfPostBridge(pm), s.x, s.g)
		s.obs.send(proto.POST_BRIDGE, pm)
	}
	s.pool[addr] = &post{addr: addr, by: u}
	s.free++
	s.stats.posts++
}

// get lets a user ask for bridges and waits for those it must get.
func (s *script) get(u *user, n int) {
	s.barrier() // posts come first
	want := n
	if n > u.rep {
		want = 0
	} else if want > s.free {
		want = s.free
	}
	if want < 0 {
		want = 0
	}
	asked := 0
	s.mu.Lock()
	asked = u.r.count(proto.REQUEST_BRIDGES)
	s.mu.Unlock()
	u.p.typeLine(fmt.Sprint("get ", n))
	if n <= u.rep {
		s.must(u.name+" does not send its request", func() bool { return u.r.count(proto.REQUEST_BRIDGES) > asked })
		s.barrier() // before the next post
	}
	u.expected += want
	s.must(fmt.Sprintf("%s with reputation %d asked for %d bridges (%d are free) and does not get %d", u.name, u.rep, n, s.free, want),
		func() bool { u.collect(); return len(u.got) >= u.expected })
	s.received(u)
	s.free -= want
}

// received checks the bridges a user was given.
func (s *script) received(u *user) {
	if len(u.got) > u.expected {
		s.fail("%s was given %d bridges, not %d", u.name, len(u.got), u.expected)
	}
	for _, a := range u.got {
		p := s.pool[a]
		if p == nil {
			s.fail("%s was given %q, which nobody posted in this round", u.name, a)
		}
		if p.to != nil && p.to != u {
			s.fail("%s was given %q, which %s already has", u.name, a, p.to.name)
		}
		if p.to == nil {
			s.stats.grants++
		}
		p.to = u
	}
	seen := map[string]bool{}
	for _, a := range u.got {
		if seen[a] {
			s.fail("%s was given %q twice", u.name, a)
		}
		seen[a] = true
	}
}

// vote lets a user vote on the i-th bridge it got.
func (s *script) vote(u *user, i, feedback int) {
	n := 0
	s.mu.Lock()
	n = u.r.count(proto.VOTE)
	s.mu.Unlock()
	u.p.typeLine(fmt.Sprintf("vote %d %d", i, feedback))
	s.must(u.name+" does not send its vote", func() bool { return u.r.count(proto.VOTE) > n })
	p := s.pool[u.got[i]]
	if !p.vote {
		p.vote = true
		p.by.tally += feedback
		s.stats.votes++
	}
}

// mistype is a command that does nothing.
func (s *script) mistype(u *user) {
	cmds := []string{"", "help", "vote", "post", "get", "vote 1000 1", "vote -1 1", "get 1000", "get 0", "vote x"}
	u.p.typeLine(cmds[s.c.Int(0, len(cmds)-1, "mistyped")])
	s.stats.errors++
}

// closed checks everything that was settled in the posting phase.
func (s *script) settled() {
	s.barrier()
	for _, u := range s.users {
		if u.p != nil && s.in(u) {
			s.mu.Lock()
			u.collect()
			s.mu.Unlock()
			s.received(u)
		}
	}
}

// voting presses the key that ends the posting phase.
func (s *script) voting() {
	s.settled()
	s.key("end posting")
	s.must("the observer is not told of the voting phase", func() bool { return len(s.obs.all(proto.VOTE)) > s.votes })
	s.votes++
	for _, u := range s.users {
		if u.p != nil && s.in(u) {
			u := u
			s.must(u.name+" is not told of the voting phase", func() bool { return u.p.sees("Voting Phase begins") >= u.rounds })
			out := u.p.text()
			out = out[strings.LastIndex(out, "Messaging Phase begins"):]
			for i, a := range u.got {
				if !strings.Contains(out, fmt.Sprintf("[%d] %s\n", i, a)) {
					s.fail("%s is not offered to vote on bridge %d, %s", u.name, i, a)
				}
			}
		}
	}
}

// end presses the key that ends the round and checks the new reputations.
func (s *script) end() {
	s.settled()
	s.key("finish voting")
	s.must("the observer is not told of the end of the round", func() bool {
		return len(s.obs.all(proto.ROUND_END)) > s.ends && len(s.obs.all(proto.BCAST_PEDERSEN_RDIFF)) > s.diffs
	})
	s.mu.Lock()
	end, rd := s.obs.all(proto.ROUND_END)[s.ends], s.obs.all(proto.BCAST_PEDERSEN_RDIFF)[s.diffs]
	s.mu.Unlock()
	s.ends++
	s.diffs++
	nym := suite.Point().Mul(s.g, s.x)
	kb, _ := rd.Params["keys"].([]byte)
	db, _ := rd.Params["rDiffs"].([]byte)
	i := util.FindIndexWithinKeyList(util.ProtobufDecodePointList(kb), nym)
	l := util.ProtobufDecodeSecretList(db)
	if i >= 0 && i < len(l) {
		s.r = suite.Secret().Add(s.r, l[i])
	} else if s.in(s.me) {
		s.fail("no change of randomness for the observer in round %d", s.round)
	}
	if s.in(s.me) {
		kb, _ = end.Params["keys"].([]byte)
		db, _ = end.Params["diffs"].([]byte)
		got := util.FindIntUsingKeyList(util.ProtobufDecodePointList(kb), util.DecodeIntArray(db), nym)
		if got != s.me.tally {
			s.fail("the observer's reputation changes by %d, the votes for its bridges add up to %d", got, s.me.tally)
		}
	}
	for _, u := range s.users {
		if u.joined <= s.round {
			u.rep += u.tally
		}
		if u.p == nil || u.gone {
			continue
		}
		u := u
		u.ends++ // also of the round it joined in
		s.must(u.name+" is not told of the end of the round", func() bool { return u.p.sees("Round ended") >= u.ends })
		if got := lastInt(u.p.text(), `my new reputation: (-?\d+)`); got == nil || *got != u.rep {
			s.fail("%s has reputation %v at the end of round %d, with the votes for its bridges it is %d", u.name, str(got), s.round, u.rep)
		}
	}
}

// leave ends a client program.
func (s *script) leave(u *user) {
	s.mu.Lock()
	u.p.leave = true
	s.mu.Unlock()
	if s.c.Bool("kill") {
		s.note("%s is killed", u.name)
		u.p.cmd.Process.Kill()
	} else {
		u.p.typeLine("exit")
	}
	s.must(u.name+" does not exit", func() bool { return u.p.exited })
	u.gone = true
	s.stats.leaves++
}

func (s *script) active() []*user {
	var out []*user
	for _, u := range s.users {
		if s.in(u) && u.p != nil {
			out = append(out, u)
		}
	}
	return out
}

func (s *script) posters() []*user {
	out := s.active()
	if s.in(s.me) {
		out = append(out, s.me)
	}
	return out
}

// phase runs drawn commands.
func (s *script) phase(n, clients int) {
	for i := 0; i < n; i++ {
		act, all := s.active(), s.posters()
		k := s.c.Int(0, 11, "command")
		switch {
		case (k == 0 || len(act) == 0) && len(s.users)-1 < clients:
			s.join()
		case len(act) == 0:
		case k <= 3:
			s.post(all[s.c.Int(0, len(all)-1, "who")])
		case k <= 6:
			u := act[s.c.Int(0, len(act)-1, "who")]
			s.get(u, s.c.Int(0, maxInt(u.rep, 0)+1, "number"))
		case k == 7:
			s.voteAny()
		case k == 8:
			s.mistype(act[s.c.Int(0, len(act)-1, "who")])
		case len(act) > 1 && s.round > 1:
			s.settled()
			s.leave(act[s.c.Int(0, len(act)-1, "who")])
		}
	}
}

func (s *script) voteAny() {
	var us []*user
	for _, u := range s.active() {
		if len(u.got) > 0 {
			us = append(us, u)
		}
	}
	if len(us) == 0 {
		return
	}
	u := us[s.c.Int(0, len(us)-1, "who")]
	s.vote(u, s.c.Int(0, len(u.got)-1, "bridge"), 1-2*s.c.Int(0, 1, "down"))
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func TestC23_Scripts(t *testing.T) {
	hx.Check(t, 2, "a script of at least three rounds with posts, assignments and votes by at least two client programs", func(c *hx.Case) {
		s := newScript(c, os.Getenv("HX_BIN"))
		defer s.close()
		servers := c.Int(1, 3, "servers")
		clients := c.Int(1, 4, "clients")
		rounds := c.Int(3, 4, "rounds")
		s.start(servers)
		s.key("start")
		s.observe()
		for i := 0; i < rounds; i++ {
			s.opened()
			if s.round == 1 {
				for j, n := 0, c.Int(1, clients, "now"); j < n; j++ {
					s.join()
				}
			}
			if s.round > 1 {
				all := s.posters()
				for j, n := 0, c.Int(1, 3, "posts"); j < n; j++ {
					s.post(all[c.Int(0, len(all)-1, "who")])
				}
				for _, u := range s.active() {
					if c.Int(0, 3, "asks") > 0 {
						s.get(u, c.Int(1, 2, "number"))
					}
				}
			}
			s.phase(c.Int(0, 4, "commands"), clients)
			s.voting()
			for j, n := 0, c.Int(0, 3, "votes"); j < n; j++ {
				s.voteAny()
			}
			s.phase(c.Int(0, 2, "late commands"), clients)
			s.end()
		}
		s.opened()
		c.Count("posts", s.stats.posts)
		c.Count("assignments", s.stats.grants)
		c.Count("votes", s.stats.votes)
		c.Count("joins", s.stats.joins)
		c.Count("leaves", s.stats.leaves)
		c.Count("mistyped", s.stats.errors)
		if s.stats.posts > 1 && s.stats.grants > 0 && s.stats.votes > 0 && s.stats.joins > 1 {
			c.NonTrivial("%d servers %d rounds %+v: %s", servers, s.round, s.stats, strings.Join(s.trace, "; "))
		}
	})
}
