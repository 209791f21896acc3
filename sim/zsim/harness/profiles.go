package main

import (
	"time"

	"github.com/jart/gosip/zsim/rt"
)

type share struct {
	name   string
	weight int
}

// plan says which scenarios a property is looked for in.
var plan = map[string][]share{
	"C01": {{"chostile", 6}, {"thostile", 5}, {"rhostile", 3}},
	"C02": {{"calls", 3}, {"failover", 2}, {"hangup", 3}, {"sockerr", 3}, {"redirect", 1}, {"slow", 2}},
	"C03": {{"hangup", 8}, {"calls", 2}, {"indialog", 1}},
	"C04": {{"calls", 3}, {"mess", 4}, {"stray", 1}, {"failover", 2}, {"redirect", 1}, {"hangup", 1}},
	"C05": {{"mess", 4}, {"calls", 3}, {"failover", 2}, {"redirect", 2}, {"hangup", 1}, {"stray", 1}},
	"C06": {{"retrans", 6}, {"indialog", 3}, {"hangup", 2}, {"failover", 1}, {"calls", 1}},
	"C07": {{"failover", 8}, {"redirect", 2}, {"hangup", 1}, {"sockerr", 1}},
	"C08": {{"redirect", 8}, {"mess", 1}},
	"C09": {{"indialog", 8}, {"hangup", 1}, {"multi", 1}},
	"C10": {{"stray", 8}, {"failover", 1}, {"redirect", 2}},
	"C11": {{"media", 8}, {"stray", 1}},
	"C12": {{"transport", 6}, {"tslow", 2}, {"tbreak", 3}, {"tmess", 2}},
	"C13": {{"tresp", 6}, {"transport", 2}, {"tmess", 1}},
	"C14": {{"troute", 6}, {"transport", 2}, {"spec", 3}},
	"C15": {{"rsend", 8}, {"rdtmf", 2}, {"rtp", 2}},
	"C16": {{"rdtmf", 8}, {"rtp", 1}},
	"C17": {{"rrecv", 8}, {"rhostile", 1}, {"rtp", 2}},
	"C18": {{"rclose", 8}, {"rtp", 1}},
	"C19": {{"rbind", 8}, {"rtp", 1}},
	"C20": {{"tident", 4}, {"trand", 1}, {"crand", 1}, {"transport", 1}, {"multi", 2}, {"failover", 2}, {"redirect", 2}, {"calls", 1}},
	"C22": {{"phone", 1}},
	"C23": {{"hand", 1}},
	"C21": {{"multi", 6}, {"slow", 3}, {"tmulti", 3}},
}

type runs struct{ quick, thorough int }

var budget = map[string]runs{}

func init() {
	for p := range plan {
		if _, ok := budget[p]; !ok {
			budget[p] = runs{40000, 6000000}
			if p >= "C02" && p <= "C11" || p >= "C15" && p <= "C19" {
				budget[p] = runs{120000, 10000000}
			}
		}
	}
}

func base() *Knobs {
	k := &Knobs{
		Interval: 400, Max: 2,
		Lat:        time.Duration(1+W(30)) * time.Millisecond,
		Plans:      []int{60, 6, 5, 5, 8, 6, 8, 2, 4, 1, 3, 0},
		Sdp:        500,
		Routes:     250,
		CancelDeaf: 150,
		ByeDeaf:    150,
		ByeOdd:     100,
		AckLost:    150,
		Calls:      1,
		Peers:      1 + W(4),
		Horizon:    time.Duration(1+W(12)) * time.Second,
		Dest:       []int{50, 20, 25, 2},
		DeadPM:     80,
		DownPM:     50,
		SrvBad:     50,
		Actions:    4,
		ActW:       []int{10, 10, 6, 10, 2, 0, 3, 3, 2, 3},
		InDialog:   4,
		ReqW:       []int{30, 30, 8, 14, 10, 10, 6, 6},
		SpecPM:     150,
		Rich:       250,
		DNSErr:     20,
		Alien:      14,
	}
	switch W(4) {
	case 1:
		k.Interval, k.Max = pick(400, 50, 1000, 1, 2000, 100), W(6)
	case 2:
		k.Interval = pick(200, 500, 600)
	}
	k.Loose = F(250)
	k.Fam = weighted([]int{75, 10, 15})
	switch W(3) {
	case 1:
		k.Loss, k.Dup, k.Reorder = W(150), W(150), W(150)
		k.Jitter = time.Duration(W(40)) * time.Millisecond
	case 2:
		k.Loss, k.Dup, k.Reorder = W(500), W(300), W(400)
		k.Jitter = time.Duration(W(300)) * time.Millisecond
	}
	if F(25) {
		k.Horizon = time.Duration(pick(100, 700, 2000, 10000)) * time.Second
	}
	return k
}

func calls(tune func(k *Knobs)) func() []string {
	return func() []string {
		k := base()
		if tune != nil {
			tune(k)
		}
		e := callScenario(k)
		return sorted(e.mstates)
	}
}

func tbase() *tKnobs {
	k := &tKnobs{
		Fam: weighted([]int{70, 15, 15}), Tps: 1 + W(3), Peers: 1 + W(3), Horizon: time.Duration(1+W(5000)) * time.Millisecond,
		Ops: pick(3, 8, 20, 40), OpW: []int{30, 8, 8, 4, 1, 1, 3, 4, 0},
		Nat: 300, Style: pick(0, 300, 900), Bad: pick(0, 60, 200), Odd: 0,
		Respond: []int{5, 2, 3}, Routes: 150, Sparse: 300,
		DNSErr: 30, Big: 15, Tag: F(150),
		Lat: time.Duration(W(20)) * time.Millisecond,
	}
	if F(300) {
		k.Loss, k.Dup, k.Reorder = W(200), W(300), W(300)
		k.Jitter = time.Duration(W(30)) * time.Millisecond
	}
	if F(100) {
		k.Lat = 0
	}
	if F(25) {
		k.Horizon *= time.Duration(pick(10, 100, 1000))
	}
	return k
}

func transports(tune func(k *tKnobs)) func() []string {
	return func() []string {
		k := tbase()
		if tune != nil {
			tune(k)
		}
		return sorted(tScenario(k).states)
	}
}

func init() {
	profile("transport", transports(nil))
	profile("tmess", transports(func(k *tKnobs) {
		k.Corrupt, k.Bad, k.Style = W(300), 200, 600
		k.Loss, k.Dup, k.Reorder = W(300), W(300), W(500)
		k.Jitter = time.Duration(W(100)) * time.Millisecond
		k.Odd = 10
	}))
	profile("tslow", transports(func(k *tKnobs) {
		k.Slow = 900
		k.OpW[opBurst], k.OpW[opFreeze] = 15, 8
		k.Respond = []int{1, 1, 8}
	}))
	profile("tbreak", transports(func(k *tKnobs) {
		k.Break = 800
		k.OpW[opBreak], k.OpW[opClose] = 4, 4
		k.Slow = 300
	}))
	profile("tresp", transports(func(k *tKnobs) {
		k.Nat, k.Respond = 600, []int{8, 3, 1}
		k.OpW = []int{30, 10, 2, 20, 0, 0, 2, 5, 0}
		k.Bad, k.WriteErr = 20, pick(0, 0, 100)
		k.DNSErr = 80
	}))
	profile("troute", transports(func(k *tKnobs) {
		k.Routes, k.Sparse = 600, pick(100, 300, 600)
		k.Respond = []int{2, 6, 2}
		k.OpW = []int{12, 4, 40, 2, 0, 0, 1, 2, 0}
		k.Bad, k.WriteErr = 20, pick(0, 0, 100)
		k.DNSErr = 80
	}))
	profile("hand", transports(func(k *tKnobs) {
		k.Hand, k.Routes = 900, 300
		k.Ops = pick(2, 5, 12)
		k.OpW = []int{6, 3, 40, 1, 0, 0, 2, 1, 0}
		k.Bad, k.WriteErr, k.DNSErr = 0, pick(0, 0, 100), 0
	}))
	profile("tident", transports(func(k *tKnobs) {
		k.Sparse = 100
		k.Ops = 60
		k.OpW = []int{12, 4, 60, 2, 0, 0, 1, 2, 0}
		k.Respond = []int{2, 6, 2}
	}))
	profile("trand", transports(func(k *tKnobs) {
		k.Sparse, k.Bad = 100, 0
		k.Ops = 20
		k.OpW = []int{12, 4, 60, 2, 0, 0, 1, 2, 0}
		k.Respond = []int{2, 6, 2}
		k.RandFail = pick(1000, 300, 50)
	}))
	profile("crand", calls(func(k *Knobs) {
		k.SpecPM = 100
		k.Calls = 1 + W(4)
		k.Dest = []int{10, 10, 70, 3}
		k.Plans = []int{15, 6, 25, 15, 3, 25, 6, 1, 6, 0, 1, 0}
		k.Peers = 2 + W(4)
		k.RandFail = pick(1000, 300, 50)
	}))
	profile("tmulti", transports(func(k *tKnobs) {
		k.Tps, k.Break, k.Slow = 3+W(3), 700, 400
		k.OpW[opBreak], k.OpW[opClose], k.OpW[opFreeze] = 4, 4, 5
	}))
	profile("spec", calls(func(k *Knobs) {
		k.SpecPM = pick(300, 600, 900)
		k.Dest = []int{35, 25, 35, 3}
		k.Routes = 500
		k.Plans = []int{60, 2, 6, 4, 4, 10, 6, 0, 3, 0, 2, 0}
	}))
}

func init() {
	profile("chostile", calls(func(k *Knobs) {
		k.Weak, k.Hostile = true, 1
		k.Calls = 1 + W(2)*W(3)
		k.Loose = F(400)
		k.Slow = pick(0, 0, 300)
		k.Plans = []int{60, 4, 6, 10, 8, 8, 6, 2, 4, 1, 3, 0}
		k.ActW = []int{10, 6, 0, 0, 3, 1, 2, 2, 2, 2}
	}))
	profile("thostile", transports(func(k *tKnobs) {
		k.Hostile, k.Corrupt, k.Bad = 1, W(300), pick(0, 100)
		k.OpW[opRaw], k.OpW[opBurst] = 60, 6
		k.Ops = pick(5, 20, 60)
		k.Slow = pick(0, 300)
		k.Style = pick(0, 600)
		k.Loss, k.Dup, k.Reorder = 0, W(200), W(200)
	}))
}

func sorted(m map[string]bool) []string { return rt.Keys(m) }

func init() {
	profile("calls", calls(nil))
	profile("failover", calls(func(k *Knobs) {
		k.Plans = []int{15, 6, 25, 25, 3, 6, 6, 1, 6, 0, 1, 0}
		k.Dest = []int{10, 10, 70, 3}
		k.Peers = 2 + W(4)
		k.DeadPM, k.DownPM, k.DialFail, k.SrvBad = 250, 150, 100, 80
		k.ActW = []int{10, 4, 6, 4, 6, 0, 3, 3, 4, 4}
		k.DNSErr = 60
		k.HangTrig = 15 * W(2)
	}))
	profile("redirect", calls(func(k *Knobs) {
		k.Plans = []int{25, 4, 8, 6, 2, 45, 10, 1, 2, 4, 1, 0}
		if F(120) {
			k.Plans[plLoop] = 60
			k.Loss /= 4
			k.Horizon += 20 * time.Second
		}
		k.Dest = []int{40, 20, 30, 4}
		k.Peers = 2 + W(3)
		k.StrayTrig = 60
		k.ByeOdd = 300
	}))
	profile("hangup", calls(func(k *Knobs) {
		k.Plans = []int{40, 4, 6, 8, 25, 5, 10, 2, 10, 0, 3, 0}
		k.HangTrig = pick(60, 150, 400)
		k.ActW = []int{4, 25, 3, 4, 2, 1, 3, 2, 2, 2}
		k.CancelDeaf, k.ByeDeaf = 250, 250
	}))
	profile("mess", calls(func(k *Knobs) {
		k.Plans = []int{15, 6, 4, 1, 4, 4, 50, 4, 4, 1, 12, 0}
		if k.Dup == 0 && F(600) {
			k.Dup, k.Reorder = 200, 300
		}
	}))
	profile("retrans", calls(func(k *Knobs) {
		k.Plans = []int{40, 4, 4, 25, 10, 4, 4, 0, 15, 0, 2, 0}
		k.Interval, k.Max = pick(400, 400, 50, 1000, 1, 2500), pick(2, 2, 0, 1, 3, 5, 8)
		k.Loss = W(600)
		k.ActW = []int{6, 8, 3, 10, 2, 0, 12, 6, 3, 4}
		k.AckLost = 500
		k.CancelDeaf, k.ByeDeaf = 400, 400
		k.InDialog = 3
		k.ReqW = []int{10, 60, 3, 5, 5, 3, 10, 10}
	}))
	profile("indialog", calls(func(k *Knobs) {
		k.Plans = []int{90, 1, 0, 0, 5, 1, 4, 0, 0, 0, 4, 0}
		k.DeadPM, k.DownPM = 0, 0
		k.InDialog, k.Actions = 10, 8
		k.ActW = []int{4, 2, 2, 40, 1, 0, 3, 2, 1, 1}
		k.Horizon += 8 * time.Second
		k.Loose = F(400)
		k.Dest[3] = 0
	}))
	profile("stray", calls(func(k *Knobs) {
		k.StrayTrig = pick(200, 500)
		k.Actions = 10
		k.ActW = []int{4, 4, 50, 6, 1, 0, 2, 1, 1, 1}
		k.Loose = F(500)
	}))
	profile("media", calls(func(k *Knobs) {
		k.Sdp = 850
		k.Plans = []int{60, 2, 6, 2, 6, 6, 14, 0, 2, 0, 6, 0}
		k.InDialog = 6
		k.ReqW = []int{6, 60, 2, 4, 12, 8, 3, 12}
		k.Loose = F(400)
		k.DeadPM, k.DownPM = 40, 20
	}))
	profile("phone", calls(func(k *Knobs) {
		k.Media = true
		k.Calls = 1 + W(2)*W(3)
		k.Sdp = 850
		k.Plans = []int{70, 2, 4, 3, 8, 6, 8, 0, 4, 0, 6, 0}
		k.InDialog = 6
		k.ReqW = []int{6, 60, 6, 4, 6, 4, 3, 12}
		k.DeadPM, k.DownPM = 40, 20
		k.ActW = []int{20, 5, 2, 20, 1, 1, 2, 2, 1, 1}
		k.Slow = pick(0, 0, 300)
		if F(6) {
			k.Long, k.Horizon = true, time.Duration(10+W(20))*time.Second
		}
	}))
	profile("sockerr", calls(func(k *Knobs) {
		k.WriteErr = pick(0, 30, 100)
		if F(400) {
			k.Victim, k.WriteErr = pickS("SIP/2.0 ", "SIP/2.0 4", "SIP/2.0 5", "ACK ", "BYE ", "CANCEL ", "INVITE "), pick(100, 300, 1000)
			k.Alien = 150
		}
		k.ActW = []int{2, 4, 2, 6, 8, 20, 2, 2, 6, 4}
		k.DialFail = 100
		k.Loose = F(500)
		k.HangTrig = 30 * W(2)
	}))
	profile("slow", calls(func(k *Knobs) {
		k.Slow = 1000
		k.Loose = F(400)
		k.HangTrig = 40 * W(2)
		k.ActW = []int{10, 10, 3, 14, 2, 2, 0, 3, 2, 2}
	}))
	profile("multi", calls(func(k *Knobs) {
		k.Calls = 2 + W(4)
		k.Peers = 1 + W(3)
		k.Actions = 8
		k.HangTrig = 10 * W(3)
		k.Slow = 200
		k.ActW = []int{8, 10, 8, 16, 3, 3, 0, 3, 2, 3}
	}))
}
